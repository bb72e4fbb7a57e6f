"use strict";
// Histories of LangChain events on known values, checked against what each run must record. An event:
// { on: kind, h: handlers (default [0]), run, parent, tags, meta, name, input, extra } starts a run,
// { token: run }, { end: run, out } and { fail: run, err } follow.
const { L, V, konst, readConst, canon, prop } = require("./_common.js");
const { mkLC, msg, lab } = require("./_langchain.js");
const { C, UNDEF } = V;
const CB = {
  chain: ["handleChainStart", "handleChainEnd", "handleChainError", undefined],
  llm: ["handleLLMStart", "handleLLMEnd", "handleLLMError", "generation"],
  chat: ["handleChatModelStart", "handleLLMEnd", "handleLLMError", "generation"],
  tool: ["handleToolStart", "handleToolEnd", "handleToolError", "tool"],
  retriever: ["handleRetrieverStart", "handleRetrieverEnd", "handleRetrieverError", undefined],
};
const ROLE = { human: "user", ai: "assistant", system: "system" };
const M = (type, content, more = {}) => ({ $m: { type, content, ...more } });
const say = (m) => ({ role: ROLE[m.$m.type], content: m.$m.content, ...(m.$m.tool_calls && m.$m.tool_calls.length ? { tool_calls: m.$m.tool_calls } : {}) });
const MD = { k: "v", langfuseUserId: "run-user", langfuseSessionId: "run-session" };
const PR = (name) => ({ langfusePrompt: { name, version: 1, isFallback: false }, own: name });
const ai = (text, usage, more = {}) => ({ generations: [[{ text, message: M("ai", text, { cls: ["AIMessage"], usage_metadata: usage, response_metadata: { model_name: "m-" + text }, ...more }) }]] });
const HP = { version: "v1", tags: ["h1", "both"], userId: "hu", sessionId: "hs", traceMetadata: { a: "x", n: 1, o: { p: [true] } } };
const SCRIPTS = {
  "two roots at once": { params: [HP], ev: [
    { on: "chain", run: "A", tags: ["both", "t1"], meta: MD, input: { q: 1 } }, { on: "chain", run: "B", input: { q: 2 } }, { on: "chain", run: "C", parent: "A", tags: ["t2"], input: { q: 3 } },
    { end: "B", out: { output: "ob" } }, { end: "C", out: { r: 3 } }, { on: "chain", run: "D", tags: ["t3"], input: { q: 4 } }, { fail: "A", err: "boom A" }, { end: "D", out: { output: 5 } },
  ] },
  "attributes of one run do not stay": { params: [{ ...HP, tags: undefined, userId: undefined }], ev: [
    { on: "chain", run: "A", tags: ["a"], meta: MD, input: "x" }, { end: "A", out: { output: "o" } }, { on: "chain", run: "B", input: "y" }, { end: "B", out: { output: "p" } }, { on: "chain", run: "C", tags: ["c"], meta: { other: 1 }, input: "z" }, { end: "C", out: { output: "q" } },
  ] },
  "two handlers see the same runs": { params: [HP, { version: "v2", userId: "u2" }], ev: [
    { on: "chain", h: [0, 1], run: "A", input: "x" }, { on: "chain", h: [0, 1], run: "T", parent: "A", meta: PR("p1"), input: "y" }, { end: "T", h: [0, 1], out: "z" }, { on: "llm", h: [0, 1], run: "L", parent: "A", input: ["hi"] }, { token: "L", h: [0, 1] }, { end: "L", h: [0, 1], out: ai("one") }, { end: "A", h: [0, 1], out: { output: "o" } },
  ] },
  "handlers do not share prompts": { params: [HP, HP], ev: [
    { on: "chain", h: [0, 1], run: "A", input: "x" }, { on: "chain", run: "T", parent: "A", meta: PR("p1"), input: "y" }, { on: "llm", h: [1], run: "L", parent: "A", input: ["hi"] }, { end: "L", h: [1], out: ai("one") }, { on: "llm", run: "L2", parent: "A", input: ["ho"] }, { end: "T", out: "z" }, { end: "L2", out: ai("two") }, { end: "A", h: [0, 1], out: { output: "o" } },
  ] },
  "streams at once": { params: [{ version: "v1" }], ev: [
    { on: "chain", run: "A", input: "x" }, { on: "llm", run: "L1", parent: "A", input: ["a"] }, { on: "chat", run: "L2", parent: "A", input: [[M("human", "b")], [M("system", "s"), M("human", "c", { name: "joe" })]] }, { on: "llm", run: "L3", parent: "A", input: ["d", "e"] },
    { token: "L1" }, { token: "L2" }, { token: "L1" }, { token: "L3" }, { end: "L1", out: ai("one", { input_tokens: 0, output_tokens: 3, total_tokens: 4 }) }, { token: "L2" }, { fail: "L3", err: "boom L" }, { end: "L2", out: ai("two", { input_tokens: 5, output_tokens: 0, total_tokens: 6, input_token_details: { cache_read: 2 } }) },
    { on: "llm", run: "L4", parent: "A", input: ["f"] }, { end: "L4", out: { generations: [[{ text: "t4" }]], llmOutput: { tokenUsage: { promptTokens: 0, completionTokens: 2, totalTokens: 3 } } } }, { end: "A", out: { output: "o" } },
  ] },
  "prompts of several chains": { params: [{}], ev: [
    { on: "chain", run: "A", input: "x" }, { on: "chain", run: "B", input: "y" }, { on: "chain", run: "TA", parent: "A", meta: PR("pa"), input: "1" }, { end: "TA", out: "f" }, { on: "chain", run: "TB", parent: "B", meta: PR("pb"), input: "2" }, { end: "TB", out: "g" },
    { on: "llm", run: "LB", parent: "B", input: ["b"] }, { on: "llm", run: "LB2", parent: "B", input: ["b2"] }, { on: "llm", run: "LA", parent: "A", input: ["a"] }, { end: "LA", out: ai("one") }, { end: "LB", out: ai("two") }, { end: "LB2", out: ai("three") },
    { on: "chain", run: "TA2", parent: "A", meta: PR("pa2"), input: "3" }, { end: "TA2", out: "h" }, { on: "chain", run: "TA3", parent: "A", meta: PR("pa3"), input: "4" }, { end: "TA3", out: "h" }, { end: "B", out: { output: "ob" } }, { on: "chat", run: "LA2", parent: "A", input: [[M("human", "b")]] }, { end: "LA2", out: ai("four") }, { end: "A", out: { output: "oa" } },
  ] },
  "a failed chain forgets its prompt only": { params: [{}], ev: [
    { on: "chain", run: "A", input: "x" }, { on: "chain", run: "B", input: "y" }, { on: "chain", run: "TA", parent: "A", meta: PR("pa"), input: "1" }, { end: "TA", out: "f" }, { on: "chain", run: "TB", parent: "B", meta: PR("pb"), input: "2" }, { fail: "B", err: "no" }, { end: "TB", out: "g" }, { on: "llm", run: "LA", parent: "A", input: ["a"] }, { end: "LA", out: ai("one") }, { end: "A", out: { output: "o" } },
  ] },
  "shared payloads": { params: [{}], shared: true, ev: [
    { on: "chain", run: "A", tags: ["t"], meta: MD, input: "x" }, { on: "tool", run: "T", parent: "A", meta: MD, input: "q" }, { on: "retriever", run: "R", parent: "A", tags: ["t", "u"], meta: MD, input: "q" }, { on: "llm", run: "L", parent: "T", meta: MD, input: ["a"] }, { end: "L", out: ai("one") }, { end: "T", out: "done" }, { fail: "R", err: "lost" }, { end: "A", out: { output: "o" } },
  ] },
  "parents that are gone": { params: [{}], ev: [
    { on: "chain", run: "A", input: "x" }, { on: "tool", run: "T", parent: "A", input: "q" }, { end: "T", out: "done" }, { on: "tool", run: "U", parent: "T", input: "q2" }, { on: "retriever", run: "R", parent: "nowhere", input: "q3" }, { on: "chain", run: "K", parent: "nowhere", input: "q4" }, { on: "llm", run: "L", parent: "K", input: ["a"] }, { end: "U", out: "x" }, { end: "R", out: [] }, { end: "L", out: ai("one") }, { end: "K", out: { output: "z" } }, { end: "A", out: { output: "o" } },
  ] },
  "tags and levels": { params: [{ tags: ["h"] }], ev: [
    { on: "chain", run: "A", tags: ["langsmith:hidden"], input: "x" }, { on: "chain", run: "B", parent: "A", tags: ["seq:step:1", "langsmith:hidden"], input: "y" }, { on: "tool", run: "T", parent: "B", tags: ["langsmith:nested", "hidden"], input: "q" }, { on: "llm", run: "L", parent: "B", tags: [], input: ["a"] }, { fail: "B", err: "boom" }, { end: "T", out: "1" }, { end: "L", out: ai("one") }, { end: "A", out: { output: "o" } },
  ] },
};
// known values with messages: { $m: … } becomes a LangChain message
let seq = 0;
const build = (I, st, id, x) => {
  const conv = (y) => {
    if (!y || typeof y !== "object") return y;
    if (y.$m) {
      const { type, content, cls = [], name, ...more } = y.$m;
      return { $v: msg(I, st, `${id}.m${seq++}`, type, { content: C(content), ...(name ? { name: C(name) } : {}), ...Object.fromEntries(Object.entries(more).map(([k, v]) => [k, konst(I, st, `${id}.x${seq++}`, v)])) }, cls) };
    }
    return Array.isArray(y) ? y.map(conv) : Object.fromEntries(Object.entries(y).map(([k, v]) => [k, conv(v)]));
  };
  return konst(I, st, id, conv(x));
};
// what the output of a run must be
const outOf = (kind, out) => {
  if (kind === "chain") return out && typeof out.output === "string" ? out.output : out;
  if (kind !== "llm" && kind !== "chat") return out;
  const g = out.generations[0][0];
  return g.message ? say(g.message) : g.text;
};
const usageOf = (out) => {
  const g = out.generations[0][0];
  const u = (g.message && g.message.$m.usage_metadata) || null, t = out.llmOutput && out.llmOutput.tokenUsage;
  if (!u) return t ? { input: t.promptTokens, output: t.completionTokens, total: t.totalTokens } : undefined;
  const r = { input: u.input_tokens, output: u.output_tokens, total: u.total_tokens };
  for (const [k, v] of Object.entries(u.input_token_details || {})) (r["input_" + k] = v), (r.input -= v);
  return r;
};
const omit = (o, ks) => Object.fromEntries(Object.entries(o || {}).filter(([k]) => !ks.includes(k)));
// groups: the obligations of the calling rule
function scripts(p, R, groups) {
  const G = new Set(groups);
  for (const [sn, S0] of Object.entries(SCRIPTS)) {
    const T = `history ${sn}`;
    const ob = (g, key, ok, m, w) => G.has(g) && R.ob(`${T}:${key}`, ok, m, w);
    const X = mkLC(p, R, T, { params: (I, st) => konst(I, st, "in.cp0", S0.params[0]), hooks: { snapshot: true }, opts: { stringifyThrows: false } });
    const { I } = X;
    let cur = X.starts.map((s) => ({ st: s.st, hs: [s.h] }));
    for (let i = 1; i < S0.params.length; i++) cur = cur.flatMap((s) => L.newInstance(I, s.st, L.findClass(p, "langchain", "CallbackHandler"), [konst(I, s.st, "in.cp" + i, S0.params[i])], "handler" + i).map((o) => ({ st: o.st, hs: [...s.hs, o.v] })));
    const base = S0.params.map((_, i) => X.kept({ st: cur[0].st, h: cur[0].hs[i] }));
    // payload objects used by several events
    const sharedV = new Map();
    const val = (st, id, x) => {
      if (x === undefined) return UNDEF;
      if (!S0.shared || !x || typeof x !== "object") return build(I, st, id, x);
      const k = canon(x);
      if (!sharedV.has(k)) sharedV.set(k, build(I, st, id, x));
      return sharedV.get(k);
    };
    if (S0.shared) for (const e of S0.ev) for (const x of [e.tags, e.meta]) val(cur[0].st, "in.sh" + seq++, x);
    // the reference: per handler, open runs and pending prompts
    const ref = S0.params.map(() => ({ open: new Map(), prompts: new Map(), first: new Map() }));
    const expect = []; // one per started observation
    for (const e of S0.ev)
      for (const h of e.h || [0]) {
        const P = S0.params[h], F = ref[h];
        const before = Math.max(0, ...cur.map((s) => s.st.fact("dates") || 0));
        let cb, mk, after = () => {};
        if (e.on) {
          cb = CB[e.on][0];
          const model = CB[e.on][3] === "generation";
          mk = (st) => {
            const c = (x) => (x === undefined ? UNDEF : C(x));
            const id = "in." + e.run + h;
            const a = [konst(I, st, id + ".ser", { id: ["langchain", "Cls" + e.run] }), val(st, id + ".in", e.input), C(e.run), c(e.parent)];
            const tg = val(st, id + ".tags", e.tags), md = val(st, id + ".md", e.meta);
            return model ? [...a, UNDEF, tg, md, c(e.name)] : e.on === "chain" ? [...a, tg, md, UNDEF, c(e.name)] : [...a, tg, md, c(e.name)];
          };
          if (e.on === "chain" && e.parent && e.meta && e.meta.langfusePrompt) F.prompts.set(e.parent, e.meta.langfusePrompt);
          const x = { h, e, k: expect.length + 1, type: CB[e.on][3], parent: e.parent && F.open.has(e.parent) ? F.open.get(e.parent).k : 0, root: e.on === "chain" && !e.parent };
          x.start = {
            input: e.on === "chat" ? e.input.flat().map(say) : e.input, version: P.version, metadata: { ...(e.tags && e.tags.length ? { tags: e.tags } : {}), ...omit(e.meta, ["langfusePrompt", "langfuseUserId", "langfuseSessionId"]) },
            level: (e.tags || []).includes("langsmith:hidden") ? "DEBUG" : undefined,
          };
          if (model) (x.prompt = F.prompts.get(e.parent)), F.prompts.delete(e.parent);
          if (x.root) x.prop = { userId: (e.meta || {}).langfuseUserId || P.userId, sessionId: (e.meta || {}).langfuseSessionId || P.sessionId, tags: [...new Set([...(e.tags || []), ...(P.tags || [])])].sort(), metadata: P.traceMetadata && Object.fromEntries(Object.entries(P.traceMetadata).map(([k, v]) => [k, typeof v === "string" ? v : JSON.stringify(v)])), version: P.version };
          expect.push(x);
          F.open.set(e.run, x);
        } else if (e.token) {
          cb = "handleLLMNewToken";
          mk = () => [C("tok"), UNDEF, C(e.token)];
          const x = F.open.get(e.token);
          after = (n) => x.first || (x.first = [before, n]);
        } else {
          const run = e.end || e.fail, x = F.open.get(run);
          cb = CB[x.e.on][e.end ? 1 : 2];
          mk = (st) => [e.end ? build(I, st, `in.${run}${h}.out`, e.out) : C(e.err), C(run), x.e.parent ? C(x.e.parent) : UNDEF];
          x.done = e;
          F.open.delete(run);
          F.prompts.delete(run);
        }
        cur = cur.flatMap((s) => X.cb({ st: s.st, h: s.hs[h] }, cb, mk(s.st)).map((o) => ({ st: o.st, hs: s.hs })));
        after(Math.max(0, ...cur.map((s) => s.st.fact("dates") || 0)));
        const at = `after ${cb} of ${e.run || e.token || e.end || e.fail}`;
        for (const s of cur) {
          ob("runs", "count", (s.st.fact("obs") || 0) === expect.length, `${at}: ${s.st.fact("obs") || 0} observations are started for ${expect.length} runs`);
          for (const x of expect) ob("runs", `open:${x.e.run}${x.h}`, (s.st.fact("ended:" + x.k) || 0) === (x.done ? 1 : 0), `${at}: the observation of ${x.e.run} is ${x.done ? "not ended exactly once" : "ended"}`);
          if (e.end || e.fail) ob("runs", "last-trace", lab(prop(s.st, s.hs[h], "last_trace_id")) === "traceId" + expect.find((x) => x.done === e && x.h === h).k, `${at}: last_trace_id is ${lab(prop(s.st, s.hs[h], "last_trace_id"))}`);
        }
      }
    R.entry(T);
    R.ob(T + ":reached", cur.length > 0, "the callbacks never settle");
    for (const s of cur) {
      S0.params.forEach((_, i) => {
        const k = X.kept({ st: s.st, h: s.hs[i] });
        ob("runs", "released", k === base[i], `the handler still keeps ${k || "nothing"} (${base[i] || "nothing"} at first)`);
      });
      for (const x of expect) {
        const t = `${x.e.run}${x.h}`, o = X.info(x.k), got = s.st.fact("c:" + x.k) ? JSON.parse(s.st.fact("c:" + x.k)) : {};
        if (!o) continue;
        const eq = (g, k, a, b) => ob(g, `${t}:${k}`, canon(a) === canon(b), `${x.e.run}: ${k} is ${canon(a)}, expected ${canon(b)}`, o.w);
        ob("runs", t + ":type", (o.asType === UNDEF ? undefined : readConst(s.st, o.asType)) === x.type || (!x.type && readConst(s.st, o.asType) === "span"), `${x.e.run} is a ${lab(o.asType)}`, o.w);
        ob("runs", t + ":parent", lab(o.parent) === (x.parent ? "spanContext" + x.parent : "undefined"), `${x.e.run} is below ${lab(o.parent)}`, o.w);
        for (const g of ["runs", "data"]) {
          eq(g, "name", readConst(s.st, o.name), x.e.name || "Cls" + x.e.run);
          for (const k of ["input", "version"]) eq(g, k, got[k], x.start[k]);
          eq(g, "metadata", got.metadata || {}, x.start.metadata);
          const bad = x.done && x.done.fail;
          eq(g, "level", got.level, bad ? "ERROR" : x.start.level);
          if (bad) eq(g, "status", got.statusMessage, x.done.err);
          else if (x.done) eq(g, "output", got.output, outOf(x.e.on, x.done.out));
          if (x.done && !bad && x.type === "generation") {
            const u = usageOf(x.done.out);
            if (u) eq(g, "usage", got.usageDetails, u);
            const m = x.done.out.generations[0][0].message;
            if (m) eq(g, "model", got.model, m.$m.response_metadata.model_name);
            const d = /^<date(\d+)>$/.exec(String(got.completionStartTime));
            ob(g, t + ":first-token", x.first ? got.completionStartTime !== undefined && (!d || (+d[1] > x.first[0] && +d[1] <= x.first[1])) : got.completionStartTime === undefined, `${x.e.run}: the time of the first token is ${got.completionStartTime}`, o.w);
          }
        }
        eq("trace", "prompt", got.prompt, x.prompt);
        const pv = o.ctx && X.propArgs && X.propArgs.get(o.ctx);
        if (x.root) {
          ob("trace", t + ":propagated", !!pv, `root ${x.e.run} is traced without trace attributes`, o.w);
          const got2 = (o.prop && JSON.parse(o.prop)) || {};
          for (const k of ["userId", "sessionId", "version", "metadata"]) eq("trace", k, got2[k], x.prop[k]);
          eq("trace", "tags", [...(got2.tags || [])].sort(), x.prop.tags);
        }
      }
    }
  }
}
module.exports = { scripts };
