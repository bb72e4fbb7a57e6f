"use strict";
const { L, V, prop, where, canon } = require("./_common.js");
const { runOpenAI, session } = require("./_openai.js");
const { HISTORIES, ORDERS, nameOf } = require("./_oasessions.js");
const { S, C, UNDEF, NULL, single, isConst, constOf, mkVal } = V;
const OBJ = { kind: "object", nullable: false };
const obj = (I, st, id, ps) => L.mkObj(I, st, id, ps);
const arr = (I, st, id, vs) => L.mkArr(I, st, id, vs);
const sym = (id) => S(id, { label: id, ty: { kind: "any", nullable: true } });
// response values a method may produce
const VALUES = {
  chat: (I, st) => obj(I, st, "R", { model: C("m"), choices: arr(I, st, "ch", [obj(I, st, "c0", { message: S("msg", { label: "msg", ty: OBJ }) })]), usage: obj(I, st, "us", { prompt_tokens: C(3), completion_tokens: C(2), total_tokens: C(5), prompt_tokens_details: obj(I, st, "pd", { cached_tokens: C(1) }), completion_tokens_details: NULL }) }),
  completion: (I, st) => obj(I, st, "R", { choices: arr(I, st, "ch", [obj(I, st, "c0", { text: C("t") })]) }),
  "no choices": (I, st) => obj(I, st, "R", { choices: arr(I, st, "ch", []) }),
  "null choice": (I, st) => obj(I, st, "R", { choices: arr(I, st, "ch", [NULL]) }),
  "null choices": (I, st) => obj(I, st, "R", { choices: NULL, usage: NULL, model: NULL }),
  responses: (I, st) => obj(I, st, "R", { model: C("m"), output_text: C("hi"), status: C("completed"), usage: obj(I, st, "us", { input_tokens: C(3), output_tokens: C(2), total_tokens: C(5), input_tokens_details: obj(I, st, "pd", { cached_tokens: C(1) }) }) }),
  "responses, empty text": (I, st) => obj(I, st, "R", { output_text: C(""), output: arr(I, st, "ou", []) }),
  "responses, one output": (I, st) => obj(I, st, "R", { output_text: C(""), output: arr(I, st, "ou", [sym("o1")]), usage: obj(I, st, "us", { input_tokens: C(3), output_tokens: C(2), total_tokens: C(5) }) }),
  "chat, null details": (I, st) => obj(I, st, "R", { choices: arr(I, st, "ch", [obj(I, st, "c0", { message: S("msg", { label: "msg", ty: OBJ }) })]), usage: obj(I, st, "us", { prompt_tokens: C(3), completion_tokens: C(2), total_tokens: C(5), prompt_tokens_details: NULL }) }),
  "responses, outputs": (I, st) => obj(I, st, "R", { output: arr(I, st, "ou", [sym("o1"), sym("o2")]) }),
  string: () => C("text"),
  "empty string": () => C(""),
  null: () => NULL,
  undefined: () => UNDEF,
  number: () => C(0),
  array: (I, st) => arr(I, st, "R", [sym("e1")]),
  object: (I, st) => obj(I, st, "R", {}),
  embeddings: (I, st) => obj(I, st, "R", { model: C("m"), data: arr(I, st, "da", [sym("d1")]), usage: obj(I, st, "us", { prompt_tokens: C(3), total_tokens: C(3) }) }),
  "odd usage": (I, st) => obj(I, st, "R", { choices: arr(I, st, "ch", [obj(I, st, "c0", {})]), usage: obj(I, st, "us", { prompt_tokens: C("3") }) }),
  "empty choice": (I, st) => obj(I, st, "R", { choices: arr(I, st, "ch", [obj(I, st, "c0", { message: NULL })]) }),
};
const CHUNKS = {
  chat: (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { delta: obj(I, st, "ke" + i, { content: C("x" + i) }) })]) }),
  "chat, last with usage": (I, st, i, n) => obj(I, st, "K" + i, i < n - 1 ? { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { delta: obj(I, st, "ke" + i, { content: C("x" + i) }) })]), usage: NULL } : { choices: arr(I, st, "kc" + i, []), usage: obj(I, st, "us", { prompt_tokens: C(3), completion_tokens: C(2), total_tokens: C(5) }) }),
  "chat, usage in each": (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { delta: obj(I, st, "ke" + i, { content: C("x" + i) }) })]), usage: obj(I, st, "us" + i, { prompt_tokens: C(3), completion_tokens: C(i), total_tokens: C(3 + i) }) }),
  text: (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { text: C("x" + i) })]) }),
  "tool calls": (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { delta: obj(I, st, "ke" + i, { tool_calls: arr(I, st, "kt" + i, [obj(I, st, "kf" + i, { function: obj(I, st, "kg" + i, i ? { arguments: C("a" + i) } : { name: C("f"), arguments: C("") }) })]) }) })]) }),
  "empty tool calls": (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { delta: obj(I, st, "ke" + i, { tool_calls: arr(I, st, "kt" + i, []) }) })]) }),
  "null content": (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { delta: obj(I, st, "ke" + i, { content: NULL }) })]) }),
  "null delta": (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, [obj(I, st, "kd" + i, { delta: NULL })]) }),
  "no choices": (I, st, i) => obj(I, st, "K" + i, { choices: arr(I, st, "kc" + i, []) }),
  responses: (I, st, i, n) => obj(I, st, "K" + i, i < n - 1 ? { type: C("delta") } : { response: VALUES.responses(I, st) }),
  "responses, no choices": (I, st, i) => obj(I, st, "K" + i, { response: VALUES["no choices"](I, st) }),
  strings: (I, st, i) => C("chunk" + i),
  nulls: () => NULL,
  "empty objects": (I, st, i) => obj(I, st, "K" + i, {}),
  "null choices": (I, st, i) => obj(I, st, "K" + i, { choices: NULL, usage: NULL }),
};
const stream = (I, st, kind, n) => {
  const cs = Array.from({ length: n }, (_, i) => CHUNKS[kind](I, st, i, n));
  const v = arr(I, st, "stream", cs);
  const a = single(v), r = st.rec(a);
  const props = new Map(r.props);
  props.set("@@Symbol.asyncIterator", S("asyncIter", { label: "asyncIterator", ty: { kind: "function", nullable: false } }));
  st.setRec(a, { ...r, props });
  return { v, ids: cs.map((c) => { const x = single(c); return (x.k === "obj" ? x.id : x.key) + ","; }) };
};
const ERR = S("err", { label: "err", ty: { kind: "any", nullable: true }, userErr: true });
const resolved = (I, st, v) => [{ k: "ret", v: I.alloc(st, "sdkp", { ...I.promRec("ext", { token: "sdkp", mayReject: false, label: "sdk promise", okVal: v }) }), st }];
const rejected = (I, st) => [{ k: "ret", v: I.alloc(st, "sdkp", { ...I.promRec("rejected"), v: ERR }), st }];
module.exports = {
  VALUES, CHUNKS, stream, ERR, resolved, rejected,
  id: "P36",
  title: "observeOpenAI is transparent: same arguments, results, chunks and errors",
  rule: "For SDK methods at any nesting that return a value, return a promise or stream or throw, with responses and chunks of every documented shape: the method is called exactly once with its own object as receiver and the caller's arguments, the caller gets that very value, the very chunks in order, or that very error; recording the result never makes a successful call fail; properties that are not methods are read through unchanged",
  assumptions: ["tracing calls do not throw", "a response is not modified while it is recorded"],
  min: 150,
  run(p, R) {
    const opts = { stringifyThrows: false };
    const base = (tag, outcome, check, extra = {}) => {
      const X = runOpenAI(p, R, tag, { outcome, opts, ...extra });
      R.ob(tag + ":reached", X.results.length > 0, "the call never ends");
      for (const q of X.results) {
        R.ob(tag + ":once", q.st.fact("calls") === 1, `the method is called ${q.st.fact("calls") || 0} times`);
        check(q, X);
      }
      R.entry(tag);
    };
    for (const [vn, mk] of Object.entries(VALUES)) {
      let want;
      base(`promise of ${vn}`, (I, st) => resolved(I, st, (want = mk(I, st))), (q) => {
        R.ob(`promise of ${vn}:value`, q.kind === "fulfil" && q.v === want, q.kind === "fulfil" ? `fulfils with ${L.labelsOf(q.v)}` : `a successful call fails: ${L.labelsOf(q.v)}`);
      });
      base(`value ${vn}`, (I, st) => [{ k: "ret", v: (want = mk(I, st)), st }], (q) => {
        R.ob(`value ${vn}:value`, q.kind === "return" && q.v === want, q.kind === "return" ? `returns ${L.labelsOf(q.v)}` : `a successful call fails: ${L.labelsOf(q.v)}`);
      });
    }
    base("rejection", (I, st) => rejected(I, st), (q) => R.ob("rejection:error", q.kind === "reject" && q.v === ERR, `ends with ${q.kind} ${L.labelsOf(q.v)}`));
    base("throw", (I, st) => [{ k: "throw", v: ERR, st }], (q) => R.ob("throw:error", q.kind === "throw" && q.v === ERR, `ends with ${q.kind} ${L.labelsOf(q.v)}`));
    for (const kind of Object.keys(CHUNKS))
      for (const n of [0, 1, 3])
        for (const how of ["promise", "direct"]) {
          if (how === "direct" && n !== 3) continue;
          const tag = `${how} stream of ${n} ${kind}`;
          let s;
          const seen = new Set();
          base(tag, (I, st) => {
            s = stream(I, st, kind, n);
            return how === "promise" ? resolved(I, st, s.v) : [{ k: "ret", v: s.v, st }];
          }, (q) => {
            seen.add(q.kind);
            const y = q.st.fact("yields") || "";
            const all = s.ids.join("");
            if (q.kind === "stream-done") R.ob(tag + ":complete", y === all, `the stream ends after chunks ${y || "none"}`);
            else {
              R.ob(tag + ":prefix", q.kind !== "fulfil" && q.kind !== "return" && all.startsWith(y), `chunks arrive as ${y} (${q.kind})`);
              if (q.kind === "stream-error") R.ob(tag + ":error", /stream error/.test(L.labelsOf(q.v)), `a successful stream fails: ${L.labelsOf(q.v)}`);
              else R.ob(tag + ":kind", q.kind === "stream-stopped", `ends with ${q.kind} ${L.labelsOf(q.v)}`);
            }
          });
          R.ob(tag + ":done-reached", seen.has("stream-done"), "the stream never completes");
        }
    for (const path of [["chat", "completions", "create"], ["responses", "create"]]) {
      let want;
      base(path.join("."), (I, st) => resolved(I, st, (want = VALUES.chat(I, st))), (q) => R.ob(path.join(".") + ":value", q.kind === "fulfil" && q.v === want, "another value"), { path });
    }
    for (const [an, mk] of Object.entries({ none: () => [], string: () => [C("id"), sym("x")], null: () => [NULL], array: (I, st) => [arr(I, st, "A", [sym("e")])], foreign: () => [S("a0", { label: "a0", ty: OBJ })], object: (I, st) => [obj(I, st, "A", {})] })) base("args " + an, (I, st) => resolved(I, st, C("ok")), (q) => R.ob(`args ${an}:value`, q.kind === "fulfil" && q.v === C("ok"), `ends with ${q.kind} ${L.labelsOf(q.v)}`), { args: mk });
    // plain properties
    const fn = L.findFunction(p, "openai", "observeOpenAI");
    for (const [pn, mk] of Object.entries({ string: () => C("s"), number: () => C(0), true: () => C(true), false: () => C(false), null: () => NULL, undefined: () => UNDEF, array: (I, st) => arr(I, st, "PA", [sym("e")]), date: (I, st) => obj(I, st, "PD", {}) })) {
      const I = R.use(L.mkInterp(p, { debugEnabled: false, opts }));
      const st = new L.State();
      const v = mk(I, st);
      if (pn === "date") st.setRec(single(v), { ...st.rec(single(v)), ext: "Date" });
      const sdk = obj(I, st, "sdk", { k: v, constructor: obj(I, st, "ct", { name: C("OpenAI") }) });
      for (const w of L.callFunction(I, st, fn, [sdk, UNDEF], "observe"))
        for (const o of w.k === "ret" ? I.getProp(w.st, w.v, "k", null, L.root, { i: "rd" }) : [w]) R.ob("property " + pn, o.k === "ret" && o.v === v, `a ${pn} property reads as ${o.k} ${L.labelsOf(o.v)}`);
    }
    // histories of known calls: every call gets its own arguments, its own result, and leaves its arguments as they were
    for (const [hn, calls] of Object.entries(HISTORIES))
      for (const order of ORDERS) {
        if (order === "nested" && !calls[0].out.chunks) continue;
        session(p, R, `${hn}:${order}`, { calls, order, check(c, o, t) {
          R.ob(t + ":once", o.called === 1, `the method is called ${o.called} times`);
          R.ob(t + ":method", o.got.sdk === (c.sdk || 0) && o.got.path === c.path.join("."), `another method runs: ${o.got.path} of SDK ${o.got.sdk}`);
          R.ob(t + ":receiver", (o.got.receiver || "").endsWith(`sdk${c.sdk || 0}:${c.path.slice(0, -1).join(".")}`), `the receiver is ${o.got.receiver}`);
          R.ob(t + ":args", canon(o.got.args) === canon(c.args), `the method gets ${canon(o.got.args)}`);
          R.ob(t + ":args-kept", canon(o.argsAfter) === canon(c.args), `the caller's arguments become ${canon(o.argsAfter)}`);
          if (c.out.res !== undefined) R.ob(t + ":result", o.kind === "fulfil" && canon(o.res) === canon(c.out.res), `the caller gets ${o.kind} ${canon(o.res)}`);
          else if (c.out.fail || c.out.thrown) R.ob(t + ":error", o.kind === (c.out.fail ? "reject" : "throw") && o.res === `<err${o.i}>`, `the caller gets ${o.kind} ${canon(o.res)}`);
          else {
            const n = o.yields.length;
            R.ob(t + ":chunks", canon(o.yields) === canon(c.out.chunks.slice(0, n)) && (o.kind === "stream-stopped" || (o.kind === "stream-done" && n === c.out.chunks.length)), `the stream yields ${canon(o.yields)} and ends as ${o.kind}`);
          }
        } });
      }
  },
};
