"use strict";
const { L, V, prop } = require("./_common.js");
const { C, UNDEF, NULL, single, isConst, constOf } = V;
// LangChain templates: "{name}" is a variable, doubled braces are literal braces
const texts = [
  ["no braces", "Hello there", "Hello there"],
  ["empty", "", ""],
  ["one variable", "Hi {{name}}!", "Hi {name}!"],
  ["two variables", "{{a}} and {{b_2}}", "{a} and {b_2}"],
  ["the same variable twice", "{{a}}{{a}}", "{a}{a}"],
  ["single-braced variable", "Hi {name}!", "Hi {name}!"],
  ["json", '{"k": 1}', '{{"k": 1}}'],
  ["json with blanks", '{ \n"k": 1 }', '{{ \n"k": 1 }}'],
  ["json with single quotes", "x {'k': 1} y", "x {{'k': 1}} y"],
  ["nested json", '{"k": {"l": 2} }', '{{"k": {{"l": 2}} }}'],
  ["json with variable", 'A {"k": "{{v}}"} B', 'A {{"k": "{v}"}} B'],
  ["other braces in json", '{"k": {x} }', '{{"k": {x} }}'],
  ["unbalanced", "a } b {", "a } b {"],
  ["unclosed json", '{"k": 1', '{{"k": 1'],
  ["closing brace after json", '{"k": 1} } x', '{{"k": 1}} } x'],
  ["json, variable, json", '{"a": 1} {x} {{y}} {"b": 2}', '{{"a": 1}} {x} {y} {{"b": 2}}'],
  ["surrounding blanks", " \n Hi {{name}} \n", " \n Hi {name} \n"],
  ["capitals and digits", "{{Name2}}{{X_Y}}", "{Name2}{X_Y}"],
];
const msg = (role, content) => ({ type: "chatmessage", role, content });
const ph = (name) => ({ type: "placeholder", name });
const chats = [
  { name: "messages", prompt: [msg("system", "Hi {{name}}"), msg("user", '{"k": 1}')], want: [{ role: "system", content: "Hi {name}" }, { role: "user", content: '{{"k": 1}}' }] },
  { name: "legacy messages", prompt: [{ role: "user", content: "{{q}}" }], want: [{ role: "user", content: "{q}" }] },
  { name: "placeholder not given", prompt: [msg("user", "x"), ph("history"), msg("user", "y")], want: [{ role: "user", content: "x" }, ["placeholder", "{history}"], { role: "user", content: "y" }] },
  { name: "placeholder given", prompt: [msg("user", "x"), ph("history"), msg("user", "y")], placeholders: { history: [{ role: "user", content: "{{a}}" }, { role: "assistant", content: "b" }] }, want: [{ role: "user", content: "x" }, { role: "user", content: "{a}" }, { role: "assistant", content: "b" }, { role: "user", content: "y" }] },
  { name: "placeholder empty", prompt: [ph("history"), msg("user", "y")], placeholders: { history: [] }, want: [{ role: "user", content: "y" }] },
  { name: "placeholder of another shape", prompt: [ph("history"), msg("user", "y")], placeholders: { history: [{ text: "t" }] }, want: ['[{"text":"t"}]', { role: "user", content: "y" }] },
  { name: "placeholder with text", prompt: [ph("history"), msg("user", "y")], placeholders: { history: "t" }, want: ['"t"', { role: "user", content: "y" }] },
  { name: "two placeholders, one given", prompt: [ph("one"), ph("two")], placeholders: { two: [{ role: "user", content: "z" }] }, want: [["placeholder", "{one}"], { role: "user", content: "z" }] },
];
const build = (I, st, id, x) => {
  if (x === null || typeof x !== "object") return C(x);
  if (Array.isArray(x)) return L.mkArr(I, st, id, x.map((y, i) => build(I, st, id + "." + i, y)));
  return L.mkObj(I, st, id, Object.fromEntries(Object.entries(x).map(([k, y]) => [k, build(I, st, id + "." + k, y)])));
};
// the constant a value stands for, or undefined if it is not fully known
const read = (st, v) => {
  if (!v) return undefined;
  if (isConst(v)) return constOf(v);
  const a = single(v);
  const r = a && st.rec(a);
  if (!r) return `<${L.labelsOf(v)}>`;
  if (r.t === "arr" && r.elems && !r.sum && !r.elems.some((e) => e.m)) return r.elems.map((e) => read(st, e.v));
  if (r.t === "obj" && !r.open && !r.abs.length) return Object.fromEntries([...r.props].map(([k, w]) => [k, read(st, w)]));
  return "<unknown>";
};
module.exports = {
  id: "P52",
  title: "prompts convert to LangChain templates and to JSON without changing their meaning",
  rule: "On constant text and chat prompts: getLangchainPrompt() turns every {{variable}} into {variable}, doubles the braces of JSON objects, keeps every other character, keeps roles and order, fills, drops, stringifies or hands over placeholders as compile() does, and leaves the prompt unchanged; toJSON() is the JSON text of the prompt's name, content (without the type of messages), version, fallback flag, tags, labels, type and config",
  assumptions: ["the listed constant prompts"],
  min: 40,
  run(p, R) {
    const mk = (type, prompt) => {
      const I = R.use(L.mkInterp(p, { opts: { maxSteps: 4e5, maxGen: 200, maxElems: 200 } }));
      const st = new L.State();
      const resp = build(I, st, "resp", { type, name: "pn", version: 3, prompt, config: { temp: 1 }, labels: ["production"], tags: ["t1", "t2"], commitMessage: null });
      const outs = L.newInstance(I, st, L.findClass(p, "client", type === "text" ? "TextPromptClient" : "ChatPromptClient"), [resp], "new");
      return { I, outs };
    };
    const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
    const check = (type, c) => {
      const { I, outs } = mk(type, c.prompt);
      let n = 0;
      for (const o of outs) {
        if (o.k !== "ret") continue;
        const s1 = o.st.clone();
        const args = c.placeholders ? [build(I, s1, "opt", { placeholders: c.placeholders })] : [];
        for (const r of L.invoke(I, s1, o.v, "getLangchainPrompt", args, "glp")) {
          n++;
          if (!R.ob(`${type}:${c.name}:converts`, r.k === "ret", "the conversion throws")) continue;
          const got = read(r.st, r.v);
          R.ob(`${type}:${c.name}:template`, same(got, c.want), `${c.name}: the LangChain prompt is ${JSON.stringify(got)}, expected ${JSON.stringify(c.want)}`);
          for (const j of L.invoke(I, r.st.clone(), o.v, "toJSON", [], "json")) {
            if (!R.ob(`${type}:${c.name}:serialises`, j.k === "ret", "toJSON() throws")) continue;
            const t = read(j.st, j.v);
            let obj = null;
            try {
              obj = JSON.parse(t);
            } catch {}
            const want = { name: "pn", prompt: typeof c.prompt === "string" ? c.prompt : c.prompt.map((m) => (m.type === "chatmessage" ? { role: m.role, content: m.content } : m)), version: 3, isFallback: false, tags: ["t1", "t2"], labels: ["production"], type, config: { temp: 1 } };
            const sort = (x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sort(x[k])])) : Array.isArray(x) ? x.map(sort) : x);
            R.ob(`${type}:${c.name}:json`, obj && same(sort(obj), sort(want)), `${c.name}: toJSON() after the conversion is ${t}, expected ${JSON.stringify(want)}`);
          }
        }
      }
      R.entry(`getLangchainPrompt(${type}: ${c.name})`);
      R.ob(`${type}:${c.name}:reached`, n > 0, "no prompt client can be made");
    };
    // several conversions in a row: each is that of its own prompt, and neither prompts nor placeholders are changed
    const sort = (x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sort(x[k])])) : Array.isArray(x) ? x.map(sort) : x);
    const history = (type, list) => {
      const I = R.use(L.mkInterp(p, { opts: { maxSteps: 2e6, maxGen: 200, maxElems: 200 } }));
      let cur = [{ st: new L.State(), cs: [] }];
      const cls = L.findClass(p, "client", type === "text" ? "TextPromptClient" : "ChatPromptClient");
      list.forEach((c, i) => (cur = cur.flatMap((x) => L.newInstance(I, x.st, cls, [build(I, x.st, "hr" + i, { type, name: "pn" + i, version: i + 1, prompt: c.prompt, config: {}, labels: [], tags: [], commitMessage: null })], "hn" + i).filter((o) => o.k === "ret").map((o) => ({ st: o.st, cs: [...x.cs, o.v] })))));
      let n = 0;
      for (const round of [1, 2])
        list.forEach((c, i) => {
          const nx = [];
          for (const x of cur) {
            const ph = c.placeholders && build(I, x.st, `hp${i}.${round}`, c.placeholders);
            const json = () => L.invoke(I, x.st, x.cs[i], "toJSON", [], `hj${i}${round}`);
            for (const j of json()) {
              R.ob(`${type}:history:${c.name}:${round}:serialises`, j.k === "ret", "toJSON() throws");
              const before = j.st.fact("json" + i), text = read(j.st, j.v);
              if (before) R.ob(`${type}:history:${c.name}:json`, before === text, `toJSON() was ${before} and is ${text} after a conversion`);
              else j.st.setFact("json" + i, text);
              for (const r of L.invoke(I, j.st, x.cs[i], "getLangchainPrompt", ph ? [L.mkObj(I, j.st, `ho${i}${round}`, { placeholders: ph })] : [], `hg${i}${round}`)) {
                n++;
                R.ob(`${type}:history:${c.name}:${round}`, r.k === "ret" && same(read(r.st, r.v), c.want), `${c.name}, after other conversions (round ${round}): the LangChain prompt is ${JSON.stringify(read(r.st, r.v))}, expected ${JSON.stringify(c.want)}`);
                if (ph) R.ob(`${type}:history:${c.name}:placeholders`, same(sort(read(r.st, ph)), sort(c.placeholders)), `the caller's placeholder messages are changed to ${JSON.stringify(read(r.st, ph))}`);
                nx.push({ st: r.st, cs: x.cs });
              }
            }
          }
          cur = nx;
        });
      R.ob(`${type}:history:reached`, n >= 2 * list.length, "the conversions never finish");
      R.entry(`getLangchainPrompt(${type}: several prompts in turn)`);
    };
    const T = texts.map(([name, prompt, want]) => ({ name, prompt, want }));
    history("text", T);
    history("text", [...T].reverse());
    history("chat", chats);
    for (const [name, prompt, want] of texts) check("text", { name, prompt, want });
    for (const c of chats) check("chat", c);
  },
};
