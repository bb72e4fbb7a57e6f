"use strict";
const { L, V, prop, where } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const lab = (v) => (v ? L.labelsOf(v) : "missing");
module.exports = {
  id: "P53",
  title: "creating a prompt sends it as given and returns what the server stored",
  rule: "For text prompts (with and without a type), chat messages (with and without a type) and placeholders with unknown contents: one creation request carries every field of the body unchanged, a text prompt the type text, messages their role and content with the type of messages, placeholders their name; the call fulfils with a client of the kind, content, name and version the server answered, not marked as fallback, and rejects with the request's error; the caller's body is not changed",
  assumptions: ["chat prompts of one message, one typed message and one placeholder"],
  min: 20,
  run(p, R) {
    const cls = L.findClass(p, "client", "PromptManager");
    const str = (n) => L.symStr(n);
    for (const [kind, bare] of [["text"], ["untyped"], ["chat"], ["text", true], ["untyped", true], ["chat", true]])
      for (const answer of ["text", "chat"]) {
        const tag = `${kind}${bare ? "-bare" : ""}:${answer}`;
        const given = bare ? ["name"] : ["name", "config", "labels", "tags", "commitMessage"];
        let I, sent = 0, ok = 0, failed = 0;
        I = R.use(
          L.mkInterp(p, {
            onApi(info, rec) {
              if (!info.ret || info.ret.kind !== "promise") return null;
              const st = info.st;
              const W = where(I, info);
              sent++;
              R.ob(tag + ":method", info.name === "create", `the request is ${info.name}`, W);
              R.ob(tag + ":once", !st.fact("sent"), "the prompt is created twice", W);
              st.setFact("sent", 1);
              const g = (k) => prop(st, info.args[0], k);
              for (const k of given) R.ob(`${tag}:${k}`, g(k) === S("b." + k), `${k} of the request is ${lab(g(k))}`, W);
              R.ob(tag + ":type", g("type") === C(kind === "chat" ? "chat" : "text"), `the type of the request is ${lab(g("type"))}`, W);
              const sentKeys = single(info.args[0]) && st.rec(single(info.args[0]));
              const extra = sentKeys && sentKeys.props ? [...sentKeys.props].filter(([k, v]) => ![...given, "type", "prompt"].includes(k) && v !== UNDEF).map(([k]) => k) : ["?"];
              R.ob(tag + ":only", !extra.length, `the request carries ${extra.join(", ")} that the caller did not give`, W);
              const pr = g("prompt");
              if (kind !== "chat") R.ob(tag + ":prompt", pr === str("content"), `the prompt of the request is ${lab(pr)}`, W);
              else {
                const r = pr && single(pr) && st.rec(single(pr));
                const els = r && r.t === "arr" && r.elems && !r.sum ? r.elems.map((e) => e.v) : null;
                if (R.ob(tag + ":messages", els && els.length === 3, "the request does not carry the three messages", W)) {
                  const m = (i, k) => prop(st, els[i], k);
                  for (const i of [0, 2]) R.ob(tag + ":message" + i, m(i, "role") === str("role" + i) && m(i, "content") === str("content" + i) && m(i, "type") === C("chatmessage"), `message ${i} of the request is ${lab(m(i, "type"))}, ${lab(m(i, "role"))}, ${lab(m(i, "content"))}`, W);
                  R.ob(tag + ":placeholder", m(1, "type") === C("placeholder") && m(1, "name") === str("ph"), `the placeholder of the request is ${lab(m(1, "type"))}, ${lab(m(1, "name"))}`, W);
                }
              }
              const body = answer === "chat" ? L.mkArr(I, st, "amsgs", [L.mkObj(I, st, "amsg", { type: C("chatmessage"), role: str("arole"), content: str("acontent") })]) : str("acontent");
              rec.mayReject = true;
              rec.token = "create";
              rec.okVal = L.mkObj(I, st, "answer", { type: C(answer), name: str("aname"), version: C(7), prompt: body, config: S("acfg"), labels: S("alabels"), tags: S("atags") });
              return [{ k: "ret", v: I.alloc(st, "creation", rec), st }];
            },
          }),
        );
        const st = new L.State();
        for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { apiClient: L.symObj("api") })])) {
          if (c.k !== "ret") continue;
          const s = c.st;
          const msgs = () => L.mkArr(I, s, "msgs", [L.mkObj(I, s, "m0", { role: str("role0"), content: str("content0") }), L.mkObj(I, s, "m1", { type: C("placeholder"), name: str("ph") }), L.mkObj(I, s, "m2", { type: C("chatmessage"), role: str("role2"), content: str("content2") })]);
          const body = L.mkObj(I, s, "body", { ...Object.fromEntries(given.map((k) => [k, S("b." + k)])), prompt: kind === "chat" ? msgs() : str("content"), ...(kind === "untyped" ? {} : { type: C(kind) }) });
          const before = ["o:body", "o:msgs", "o:m0", "o:m1", "o:m2"].map((k) => s.heap.get(k));
          for (const r of L.invoke(I, s, c.v, "create", [body], "create")) {
            if (!R.ob(tag + ":async", r.k === "ret", "create() throws synchronously")) continue;
            for (const q of I.awaitVal(r.st, r.v, null, L.root)) {
              const same = ["o:body", "o:msgs", "o:m0", "o:m1", "o:m2"].every((k, i) => {
                const b = before[i], a = q.st.heap.get(k);
                return !b || (a && ((b.props && a.props && a.props.size === b.props.size && [...b.props].every(([n, v]) => a.props.get(n) === v)) || (b.elems && a.elems && a.elems.length === b.elems.length && b.elems.every((e, j) => e.v === a.elems[j].v))));
              });
              R.ob(tag + ":body-untouched", same, "the caller's body is changed");
              if (q.k === "throw") {
                failed++;
                R.ob(tag + ":rejects", /create|api/.test(lab(q.v)), `create() rejects with ${lab(q.v)}`);
                continue;
              }
              ok++;
              R.ob(tag + ":sent", q.st.fact("sent"), "create() fulfils without a request");
              const a = single(q.v);
              const rec = a && q.st.rec(a);
              R.ob(tag + ":class", rec && rec.cls && rec.cls.name.text === (answer === "chat" ? "ChatPromptClient" : "TextPromptClient"), `create() returns ${lab(q.v)}`);
              const g = (k) => prop(q.st, q.v, k);
              R.ob(tag + ":returned", g("name") === str("aname") && g("version") === C(7) && g("isFallback") === C(false) && g("type") === C(answer), "create() returns another prompt than the server's answer");
              let got = g("prompt");
              if (answer === "chat") {
                const l = got && single(got) && q.st.rec(single(got));
                got = l && l.elems && l.elems.length === 1 ? prop(q.st, l.elems[0].v, "content") : undefined;
              }
              R.ob(tag + ":content", got === str("acontent"), `the returned prompt's content is ${lab(got)}`);
            }
          }
        }
        R.entry(`prompt.create (${tag})`);
        R.ob(tag + ":reached", sent > 0 && ok > 0 && failed > 0, "create() never fulfils and rejects");
      }
  },
};
