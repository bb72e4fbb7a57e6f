"use strict";
const { L, V, prop, where } = require("./_common.js");
const { scripts } = require("./_lcscripts.js");
const { mkLC, msg, serialized, lab } = require("./_langchain.js");
const { ERRS, RESULTS, MSGS, INPUTS, OUTPUTS, EXTRA, METAS, obj, arr } = require("./P38.js");
const { S, C, UNDEF, NULL, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
// run kinds: how a run starts, ends and fails
const KINDS = {
  chain: { start: "handleChainStart", end: "handleChainEnd", err: "handleChainError", type: ["span", undefined], first: (I, st) => C("q"), outs: OUTPUTS },
  llm: { start: "handleLLMStart", end: "handleLLMEnd", err: "handleLLMError", type: ["generation"], first: (I, st) => arr(I, st, "in.p", [C("q")]), outs: RESULTS, model: true },
  chat: { start: "handleChatModelStart", end: "handleLLMEnd", err: "handleLLMError", type: ["generation"], first: (I, st) => arr(I, st, "in.p", [arr(I, st, "in.p0", [MSGS(I, st).human])]), outs: RESULTS, model: true },
  tool: { start: "handleToolStart", end: "handleToolEnd", err: "handleToolError", type: ["tool"], first: () => C("q"), outs: { string: () => C("out"), object: (I, st) => obj(I, st, "in.o", { a: C(1) }), undefined: () => UNDEF, null: () => NULL } },
  retriever: { start: "handleRetrieverStart", end: "handleRetrieverEnd", err: "handleRetrieverError", type: ["span", "retriever", undefined], first: () => C("q"), outs: { docs: (I, st) => arr(I, st, "in.o", [S("doc", { label: "doc", ty: OBJ })]), none: (I, st) => arr(I, st, "in.o", []) } },
};
// arguments of a start callback in LangChain's order
const startArgs = (kind, I, st, { first, run, parent = UNDEF, tags = UNDEF, meta = UNDEF, name = UNDEF, extra = UNDEF, ser }) => {
  const K = KINDS[kind];
  const h = [ser || serialized(I, st, "in.ser"), first || K.first(I, st), C(run), parent];
  return K.model ? [...h, extra, tags, meta, name] : kind === "chain" ? [...h, tags, meta, UNDEF, name] : [...h, tags, meta, name];
};
module.exports = {
  KINDS, startArgs,
  id: "P39",
  title: "each LangChain run is one observation, nested under its parent and ended once",
  rule: "For chain, LLM, chat, tool and retriever runs, alone, nested, interleaved and concurrent with any others, ending with any output or error: the start callback starts exactly one observation of the run's type, name, input, metadata, tags and version below the observation of the parent run; the end callback records the output, the error callback level ERROR and the error, and either ends exactly that observation exactly once; afterwards the handler keeps nothing of the run",
  assumptions: ["LangChain reports each run's start before its end, with distinct run ids", "tracing calls and the logger do not throw"],
  min: 100,
  run(p, R) {
    const params = (I, st) => obj(I, st, "cp", { version: C("v1") });
    const T = (st, X, k, t, want) => {
      for (const [a, w] of Object.entries(want)) {
        const v = X.attr(st, k, a);
        R.ob(`${t}:${a}`, w(v, st), `${a} is ${lab(v)}`, X.info(k) && X.info(k).w);
      }
    };
    const is = (c) => (v) => v === c;
    for (const [kind, K] of Object.entries(KINDS)) {
      const ends = [...Object.entries(K.outs).map(([n, m]) => ["end " + n, K.end, m, false]), ...Object.entries(ERRS).map(([n, m]) => ["error " + n, K.err, m, true])];
      for (const [en, ecb, mk, failed] of ends)
        for (const token of K.model ? [false, true] : [false])
          for (const [pn, nested] of [["root", false], ["child", true]]) {
            if (nested && en !== ends[0][0] && en !== "error error") continue;
            const tag = `${kind} ${pn}, ${token ? "streamed, " : ""}${en}`;
            const X = mkLC(p, R, tag, { params });
            let s = X.starts;
            const base = X.kept(s[0]);
            if (nested) s = X.seq(s, "handleChainStart", (I, st) => startArgs("chain", I, st, { run: "parent" }));
            // an unrelated run in flight
            s = X.seq(s, "handleToolStart", (I, st) => startArgs("tool", I, st, { run: "other" }));
            const k = nested ? 3 : 2;
            s = X.seq(s, K.start, (I, st) => startArgs(kind, I, st, { run: "r", parent: nested ? C("parent") : UNDEF, tags: arr(I, st, "in.tags", [C("t1")]), meta: obj(I, st, "in.md", { k1: C("v1"), langfusePrompt: S("lp", { label: "lp", ty: OBJ }), langfuseUserId: C("u"), langfuseSessionId: C("s") }), extra: EXTRA["empty params"](I, st) }));
            R.ob(tag + ":started", s.length > 0 && s.every((x) => x.st.fact("obs") === k), "the run does not start exactly one observation");
            if (!s.length || !X.info(k)) continue;
            const o = X.info(k);
            R.ob(tag + ":type", K.type.includes(o.asType === UNDEF ? undefined : isConst(o.asType) ? constOf(o.asType) : "?"), `the observation is a ${lab(o.asType)}`, o.w);
            R.ob(tag + ":name", o.name === C("Thing"), `the observation is named ${lab(o.name)}`, o.w);
            R.ob(tag + ":parent", lab(o.parent) === (nested ? "spanContext1" : "undefined"), `the parent is ${lab(o.parent)}`, o.w);
            for (const q of s) {
              R.ob(tag + ":open", !q.st.fact("ended:" + k), "the observation is ended before the run ends", o.w);
              T(q.st, X, k, tag, {
                version: is(C("v1")),
                metadata: (v, st) => v && prop(st, v, "k1") === C("v1") && ["langfusePrompt", "langfuseUserId", "langfuseSessionId"].every((x) => !prop(st, v, x) || prop(st, v, x) === UNDEF) && prop(st, v, "tags") && prop(st, v, "tags") !== UNDEF,
                level: is(undefined),
                input: (v, st) => (kind === "llm" ? v && lab(v) !== "undefined" && first(st, v) === C("q") : kind === "chat" ? v && prop(st, first(st, v), "role") === C("user") && lab(prop(st, first(st, v), "content")) === "in.mh.content" : v === C("q")),
              });
            }
            let firstDate = 0;
            if (token) {
              s = X.seq(s, "handleLLMNewToken", () => [C("tok"), UNDEF, C("r")]);
              firstDate = Math.max(...s.map((q) => q.st.fact("dates") || 0));
              s = X.seq(s, "handleLLMNewToken", () => [C("tok2"), UNDEF, C("r")]);
            }
            let eo;
            s = X.seq(s, ecb, (I, st) => [(eo = mk(I, st)), C("r"), nested ? C("parent") : UNDEF]);
            R.ob(tag + ":end-reached", s.length > 0, "the end callback never settles");
            for (const q of s) {
              R.ob(tag + ":ended", q.st.fact("ended:" + k) === 1, "the observation is not ended with its run", o.w);
              R.ob(tag + ":others-open", !q.st.fact("ended:1") && (!nested || !q.st.fact("ended:2")), "another run's observation is ended", o.w);
              R.ob(tag + ":no-new", q.st.fact("obs") === k, "ending the run starts another observation", o.w);
              const lt = prop(q.st, q.h, "last_trace_id");
              R.ob(tag + ":last-trace", lab(lt) === "traceId" + k, `last_trace_id is ${lab(lt)}`);
              if (failed) T(q.st, X, k, tag, { level: is(C("ERROR")), statusMessage: (v) => v !== undefined && /boom|err|undefined|null|0|str|toString/i.test(lab(v)) });
              else {
                T(q.st, X, k, tag, { level: is(undefined), statusMessage: is(undefined) });
                if (token) T(q.st, X, k, tag, { completionStartTime: (v) => v !== undefined && (!/^date\d+$/.test(lab(v)) || lab(v) === "date" + firstDate) });
                else if (K.model) T(q.st, X, k, tag, { completionStartTime: is(undefined) });
                const n = en.slice(4);
                T(q.st, X, k, tag, { output: (v, st) => OUT[kind === "chat" ? "llm" : kind](n, v === undefined ? UNDEF : v, eo, st) });
                if (K.model && USAGE[n]) {
                  const u = X.attr(q.st, k, "usageDetails");
                  for (const [uk, uv] of Object.entries(USAGE[n])) R.ob(`${tag}:usage-${uk}`, u && prop(q.st, u, uk) === C(uv), `usage ${uk} is ${u ? lab(prop(q.st, u, uk)) : "missing"}`, o.w);
                  if (/^message( chunk)?$/.test(n)) T(q.st, X, k, tag, { model: is(C("mdl")) });
                }
              }
            }
            s = X.seq(s, "handleToolEnd", () => [C("x"), C("other"), UNDEF]);
            if (nested) s = X.seq(s, failed ? "handleChainError" : "handleChainEnd", (I, st) => [failed ? C("boom") : C("o"), C("parent")]);
            for (const q of s) {
              R.ob(tag + ":released", X.kept(q) === base, `the handler still keeps ${X.kept(q) || "nothing"} (${base || "nothing"} at first)`);
              for (let i = 1; i <= k; i++) R.ob(tag + ":all-ended", q.st.fact("ended:" + i) === 1, `observation ${i} is not ended`);
            }
            R.entry(tag);
          }
      // the end of a run the handler does not know
      for (const [un, ucb, mk] of [["end", K.end, Object.values(K.outs)[0]], ["error", K.err, ERRS.error]])
        for (const parent of [UNDEF, C("A")]) {
          const tag = `${kind}, unknown ${un}${parent === UNDEF ? "" : " of a child"}`;
          const X = mkLC(p, R, tag, { params });
          let s = X.seq(X.starts, "handleChainStart", (I, st) => startArgs("chain", I, st, { run: "A" }));
          s = X.seq(s, "handleToolStart", (I, st) => startArgs("tool", I, st, { run: "B", parent: C("A") }));
          const kept = s.length && X.kept(s[0]);
          s = X.seq(s, ucb, (I, st) => [mk(I, st), C("nope"), parent]);
          R.ob(tag + ":reached", s.length > 0, "the callback never settles");
          for (const q of s) R.ob(tag + ":others", !q.st.fact("ended:1") && !q.st.fact("ended:2") && q.st.fact("obs") === 2 && X.kept(q) === kept, "another run is affected");
        }
      // naming
      for (const [nn, name, ids, want] of [["explicit name", C("given"), ["a", "B"], C("given")], ["class name", UNDEF, ["a", "B"], C("B")], ["no name", UNDEF, [], null]]) {
        const tag = `${kind}, ${nn}`;
        const X = mkLC(p, R, tag, { params });
        const s = X.seq(X.starts, K.start, (I, st) => startArgs(kind, I, st, { run: "r", name, ser: serialized(I, st, "in.ser", ids) }));
        R.ob(tag + ":started", s.length > 0 && X.info(1), "no observation is started");
        if (X.info(1)) R.ob(tag + ":name", want ? X.info(1).name === want : isConst(X.info(1).name) && constOf(X.info(1).name), `the observation is named ${lab(X.info(1).name)}`, X.info(1).w);
      }
      // hidden runs, runs without tags and metadata, unknown parents
      for (const [hn, tags, lv] of [["hidden", ["t", "langsmith:hidden"], C("DEBUG")], ["untagged", null, undefined]]) {
        const tag = `${kind}, ${hn}`;
        const X = mkLC(p, R, tag, { params });
        const s = X.seq(X.starts, K.start, (I, st) => startArgs(kind, I, st, { run: "r", parent: C("unknown"), tags: tags ? arr(I, st, "in.tags", tags.map((x) => C(x))) : UNDEF }));
        for (const q of s) T(q.st, X, 1, tag, { level: is(lv), metadata: (v, st) => !v || !prop(st, v, "tags") || (tags ? true : prop(st, v, "tags") === UNDEF) });
        R.ob(tag + ":parent", X.info(1) && lab(X.info(1).parent) === "undefined", "a run with an unknown parent is nested");
      }
    }
    // inputs and model parameters
    for (const [n, m] of Object.entries(INPUTS)) {
      const tag = "chain input " + n;
      const X = mkLC(p, R, tag);
      let iv;
      const s = X.seq(X.starts, "handleChainStart", (I, st) => startArgs("chain", I, st, { run: "r", first: (iv = m(I, st)) }));
      R.ob(tag + ":started", s.length > 0 && X.info(1), "no observation is started");
      for (const q of s) T(q.st, X, 1, tag, { input: (v, st) => INP(n, v === undefined ? UNDEF : v, iv, st) });
    }
    for (const [n, m] of Object.entries(EXTRA))
      for (const mn of ["none", "full"]) {
        const tag = `model params ${n}, metadata ${mn}`;
        const X = mkLC(p, R, tag);
        const s = X.seq(X.starts, "handleLLMStart", (I, st) => startArgs("llm", I, st, { run: "r", extra: m(I, st), meta: METAS[mn](I, st) }));
        R.ob(tag + ":started", s.length > 0 && X.info(1), "no observation is started");
        for (const q of s) {
          T(q.st, X, 1, tag, { model: (v) => (n === "full" ? v === C("mdl") : mn === "full" && n !== "none" ? v === C("lsm") : true) });
          const mp = X.attr(q.st, 1, "modelParameters");
          if (n === "full") {
            R.ob(tag + ":params", mp && prop(q.st, mp, "temperature") === C(0) && prop(q.st, mp, "max_tokens") === C(5), "the model parameters are incomplete");
            T(q.st, X, 1, tag, { input: (v, st) => v && first(st, prop(st, v, "messages")) === C("q") && lab(prop(st, v, "tools")) === "tools" && prop(st, v, "tool_choice") === C("auto") });
          } else T(q.st, X, 1, tag, { input: (v, st) => v && first(st, v) === C("q") });
        }
      }
    // an agent's actions and finish are reported with the run id of its executor
    {
      const tag = "agent";
      const X = mkLC(p, R, tag);
      let s = X.seq(X.starts, "handleChainStart", (I, st) => startArgs("chain", I, st, { run: "x" }));
      s = X.seq(s, "handleAgentAction", (I, st) => [obj(I, st, "in.act", { tool: C("calc"), toolInput: C("1") }), C("x")]);
      s = X.seq(s, "handleToolStart", (I, st) => startArgs("tool", I, st, { run: "t", parent: C("x") }));
      s = X.seq(s, "handleToolEnd", () => [C("1"), C("t")]);
      s = X.seq(s, "handleAgentEnd", (I, st) => [obj(I, st, "in.fin", { returnValues: C("1") }), C("x")]);
      s = X.seq(s, "handleChainEnd", () => [C("1"), C("x")]);
      R.ob(tag + ":reached", s.length > 0, "the callbacks never settle");
      for (const q of s) {
        R.ob(tag + ":executor-ended", q.st.fact("ended:1") === 1, "the observation of an agent executor is replaced by that of its action and never ended", X.info(1) && X.info(1).w);
        for (let i = 2; i <= q.st.fact("obs"); i++) R.ob(tag + ":actions-ended", q.st.fact("ended:" + i) === 1, `observation ${i} is not ended`, X.info(i) && X.info(i).w);
        R.ob(tag + ":released", X.kept(q) === "", `the handler still keeps ${X.kept(q)}`);
      }
    }
    scripts(p, R, ["runs"]); // histories of known events
  },
};
function first(st, v) {
  const a = v && single(v), r = a && a.k === "obj" && st.rec(a);
  return r && r.elems && r.elems.length ? r.elems[0].v : undefined;
}
const len = (st, v) => { const a = v && single(v), r = a && a.k === "obj" && st.rec(a); return r && r.elems ? r.elems.length : -1; };
const role = (st, m, r, c) => m && prop(st, m, "role") === C(r) && lab(prop(st, m, "content")) === c;
// what is recorded as output
const OUT = {
  tool: (n, v, o) => v === o,
  retriever: (n, v, o) => v === o,
  chain: (n, v, o, st) => (n === "output" ? v === C("done") : n === "messages" ? v && len(st, prop(st, v, "messages")) === 1 && role(st, first(st, prop(st, v, "messages")), "assistant", "in.ma.content") : v === o),
  llm: (n, v, o, st) => {
    if (n === "text" || n === "token usage") return v === C("t");
    if (n === "several") return v === C("last");
    if (/^message|^null token/.test(n)) return role(st, v, "assistant", "in.m.content") && (n !== "message, no metadata" || (prop(st, v, "tool_calls") && prop(st, v, "tool_calls") !== UNDEF));
    return true;
  },
};
const INP = (n, v, iv, st) => {
  if (n === "content") return v === C("txt");
  if (n === "input messages") return len(st, v) === 2 && role(st, first(st, v), "user", "in.mh.content");
  if (n === "messages") return len(st, v) === 2 && role(st, first(st, v), "system", "in.ms.content");
  return v === iv;
};
const USAGE = {
  message: { input: 6, output: 5, total: 17, input_cache_read: 4, output_reasoning: 2 },
  "message chunk": { input: 10, output: 7, total: 17 },
  "null token details": { input: 10, output: 7, total: 17 },
  "token usage": { input: 10, output: 7, total: 17 },
};
