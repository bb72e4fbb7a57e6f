"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkLC, msg, serialized, lab } = require("./_langchain.js");
const { S, C, UNDEF, NULL, single } = V;
const OBJ = { kind: "object", nullable: false };
const obj = (I, st, id, ps = {}) => L.mkObj(I, st, id, ps);
const arr = (I, st, id, vs) => L.mkArr(I, st, id, vs);
// payloads by callback; each is a maker of the leading arguments
const ERRS = {
  error: (I, st) => S("err", { label: "err", ty: OBJ, isError: true }), "azure error": (I, st) => obj(I, st, "in.aze", { error: S("in.az", { label: "az", ty: { kind: "any", nullable: true } }), toString: S("ts", { label: "toString", ty: { kind: "function", nullable: false } }) }),
  string: () => C("boom"), undefined: () => UNDEF, null: () => NULL, number: () => C(0),
};
const gens = (I, st, rows) => obj(I, st, "in.lr", { generations: arr(I, st, "in.gs", rows.map((r, i) => arr(I, st, "in.gs" + i, r))) });
const ai = (I, st, id, extra, cls = "AIMessage") => msg(I, st, id, "ai", extra, [cls]);
const RESULTS = {
  text: (I, st) => gens(I, st, [[obj(I, st, "in.g0", { text: C("t") })]]),
  "message": (I, st) => gens(I, st, [[obj(I, st, "in.g0", { text: C("t"), message: ai(I, st, "in.m", { response_metadata: obj(I, st, "in.rm", { model_name: C("mdl") }), usage_metadata: obj(I, st, "in.um", { input_tokens: C(10), output_tokens: C(7), total_tokens: C(17), input_token_details: obj(I, st, "in.itd", { cache_read: C(4) }), output_token_details: obj(I, st, "in.otd", { reasoning: C(2) }) }) }) })]]),
  "message chunk": (I, st) => gens(I, st, [[obj(I, st, "in.g0", { text: C("t"), message: ai(I, st, "in.m", { response_metadata: obj(I, st, "in.rm", { model_name: C("mdl") }), usage_metadata: obj(I, st, "in.um", { input_tokens: C(10), output_tokens: C(7), total_tokens: C(17) }) }, "AIMessageChunk") })]]),
  "message, no usage": (I, st) => gens(I, st, [[obj(I, st, "in.g0", { text: C("t"), message: ai(I, st, "in.m", { usage_metadata: UNDEF, response_metadata: obj(I, st, "in.rm", {}) }) })]]),
  "message, no metadata": (I, st) => gens(I, st, [[obj(I, st, "in.g0", { text: C("t"), message: ai(I, st, "in.m", { usage_metadata: UNDEF, response_metadata: UNDEF, tool_calls: arr(I, st, "in.tc", [S("tc1", { label: "tc1", ty: OBJ })]) }) })]]),
  "null token details": (I, st) => gens(I, st, [[obj(I, st, "in.g0", { text: C("t"), message: ai(I, st, "in.m", { response_metadata: obj(I, st, "in.rm", {}), usage_metadata: obj(I, st, "in.um", { input_tokens: C(10), output_tokens: C(7), total_tokens: C(17), input_token_details: NULL, output_token_details: UNDEF }) }) })]]),
  "several": (I, st) => gens(I, st, [[obj(I, st, "in.ga", { text: C("first") })], [obj(I, st, "in.gb", { text: C("second") }), obj(I, st, "in.gc", { text: C("last") })]]),
  "token usage": (I, st) => {
    const r = gens(I, st, [[obj(I, st, "in.g0", { text: C("t") })]]);
    const a = single(r), rec = st.rec(a), props = new Map(rec.props);
    props.set("llmOutput", obj(I, st, "in.lo", { tokenUsage: obj(I, st, "in.tu", { promptTokens: C(10), completionTokens: C(7), totalTokens: C(17) }) }));
    st.setRec(a, { ...rec, props });
    return r;
  },
  "empty row": (I, st) => gens(I, st, [[]]),
  "no generations": (I, st) => gens(I, st, []),
};
const MSGS = (I, st) => ({
  human: msg(I, st, "in.mh", "human"), ai: ai(I, st, "in.ma", { tool_calls: arr(I, st, "in.matc", [S("tc0", { label: "tc0", ty: OBJ })]) }), system: msg(I, st, "in.ms", "system"), tool: msg(I, st, "in.mt", "tool", { name: C("tname") }), function: msg(I, st, "in.mf", "function", { name: C("fname") }), generic: msg(I, st, "in.mg", "generic"), custom: msg(I, st, "in.mc", "custom"),
  named: msg(I, st, "in.mn", "custom", { name: C("who") }), kwargs: msg(I, st, "in.mk", "human", { additional_kwargs: obj(I, st, "in.mkk", { function_call: S("fc", { label: "fc", ty: OBJ }) }) }), "ai kwargs": ai(I, st, "in.mak", { additional_kwargs: obj(I, st, "in.makk", { tool_calls: S("ktc", { label: "ktc", ty: OBJ }) }) }),
});
const INPUTS = {
  string: () => C("q"), "empty string": () => C(""), object: (I, st) => obj(I, st, "in.i", { a: C(1) }), empty: (I, st) => obj(I, st, "in.i", {}), input: (I, st) => obj(I, st, "in.i", { input: C("q") }), content: (I, st) => obj(I, st, "in.i", { content: C("txt") }), "content and more": (I, st) => obj(I, st, "in.i", { content: C("txt"), more: C(1) }),
  "input messages": (I, st) => obj(I, st, "in.i", { input: arr(I, st, "in.im", [MSGS(I, st).human, MSGS(I, st).ai]) }), messages: (I, st) => obj(I, st, "in.i", { messages: arr(I, st, "in.im", [MSGS(I, st).system, MSGS(I, st).tool]) }), "mixed messages": (I, st) => obj(I, st, "in.i", { messages: arr(I, st, "in.im", [MSGS(I, st).system, C("plain")]) }),
  null: () => NULL, undefined: () => UNDEF, array: (I, st) => arr(I, st, "in.i", [C("x")]),
};
const OUTPUTS = {
  output: (I, st) => obj(I, st, "in.o", { output: C("done") }), object: (I, st) => obj(I, st, "in.o", { answer: C("x") }), messages: (I, st) => obj(I, st, "in.o", { messages: arr(I, st, "in.om", [MSGS(I, st).ai]) }), "mixed messages": (I, st) => obj(I, st, "in.o", { messages: arr(I, st, "in.om", [C("plain")]) }), string: () => C("s"), null: () => NULL, undefined: () => UNDEF, array: (I, st) => arr(I, st, "in.o", [C("x")]), empty: (I, st) => obj(I, st, "in.o", {}),
};
const EXTRA = {
  none: () => UNDEF, "no invocation params": (I, st) => obj(I, st, "in.e", {}), "empty params": (I, st) => obj(I, st, "in.e", { invocation_params: obj(I, st, "in.ip", {}) }),
  full: (I, st) => obj(I, st, "in.e", { invocation_params: obj(I, st, "in.ip", { model: C("mdl"), temperature: C(0), max_tokens: C(5), top_p: NULL, tools: S("tools", { label: "tools", ty: OBJ }), tool_choice: C("auto") }) }),
  "no tools": (I, st) => obj(I, st, "in.e", { invocation_params: obj(I, st, "in.ip", { model: UNDEF, temperature: C(0.5) }) }),
};
const METAS = {
  none: () => UNDEF, empty: (I, st) => obj(I, st, "in.md", {}),
  full: (I, st) => obj(I, st, "in.md", { k1: S("v1", { label: "v1", ty: { kind: "any", nullable: true } }), ls_model_name: C("lsm"), langfusePrompt: S("lp", { label: "lp", ty: OBJ }), langfuseUserId: C("mu"), langfuseSessionId: C("ms") }),
  odd: (I, st) => obj(I, st, "in.md", { langfusePrompt: NULL, langfuseUserId: C(7), langfuseSessionId: NULL }),
};
module.exports = {
  ERRS, RESULTS, MSGS, INPUTS, OUTPUTS, EXTRA, METAS, obj, arr,
  id: "P38",
  title: "LangChain callbacks never throw or reject",
  rule: "For every callback of CallbackHandler, with payloads of every documented and degenerate shape, known and unknown run ids: the call neither throws nor returns a rejecting promise, and leaves no rejected promise unhandled",
  assumptions: ["tracing calls and the logger do not throw", "an error's toString does not throw"],
  min: 100,
  run(p, R) {
    const id = C("run1");
    const cases = [];
    const add = (cb, tag, mk) => cases.push([cb, tag, mk]);
    const junk = { undefined: () => UNDEF, null: () => NULL, string: () => C("s"), "empty object": (I, st) => obj(I, st, "in.j", {}), array: (I, st) => arr(I, st, "in.j", []) };
    for (const [n, m] of Object.entries(INPUTS)) add("handleChainStart", "input " + n, (I, st) => [serialized(I, st), m(I, st), id]);
    for (const [n, m] of Object.entries(METAS)) add("handleChainStart", "metadata " + n, (I, st) => [serialized(I, st), C("q"), id, UNDEF, UNDEF, m(I, st)]);
    for (const [n, m] of Object.entries(OUTPUTS)) add("handleChainEnd", "output " + n, (I, st) => [m(I, st), id]);
    for (const cb of ["handleChainError", "handleLLMError", "handleToolError", "handleRetrieverError"]) for (const [n, m] of Object.entries(ERRS)) add(cb, "error " + n, (I, st) => [m(I, st), id]);
    for (const [n, m] of Object.entries(RESULTS)) add("handleLLMEnd", "result " + n, (I, st) => [m(I, st), id]);
    for (const [n, m] of Object.entries(EXTRA))
      for (const [mn, mm] of Object.entries(METAS)) {
        add("handleLLMStart", `extra ${n}, metadata ${mn}`, (I, st) => [serialized(I, st), arr(I, st, "in.p", [C("q")]), id, UNDEF, m(I, st), UNDEF, mm(I, st)]);
        add("handleChatModelStart", `extra ${n}, metadata ${mn}`, (I, st) => [serialized(I, st), arr(I, st, "in.p", [arr(I, st, "in.p0", Object.values(MSGS(I, st)))]), id, UNDEF, m(I, st), UNDEF, mm(I, st)]);
      }
    for (const cb of ["handleChainStart", "handleLLMStart", "handleChatModelStart", "handleToolStart", "handleRetrieverStart", "handleChainEnd", "handleLLMEnd", "handleToolEnd", "handleRetrieverEnd", "handleAgentAction", "handleAgentEnd"])
      for (const [n, m] of Object.entries(junk)) {
        const second = (I, st) => (cb === "handleChatModelStart" ? arr(I, st, "in.p", [arr(I, st, "in.p0", [MSGS(I, st).human])]) : cb === "handleLLMStart" ? arr(I, st, "in.p", [C("q")]) : C("x"));
        add(cb, "first " + n, (I, st) => (/Start$/.test(cb) ? [m(I, st), second(I, st), id] : [m(I, st), id]));
        if (/Start$/.test(cb)) add(cb, "second " + n, (I, st) => [serialized(I, st), m(I, st), id]), add(cb, "extra " + n, (I, st) => [serialized(I, st), second(I, st), id, UNDEF, m(I, st), m(I, st), m(I, st), UNDEF]);
      }
    for (const [n, r] of Object.entries({ known: id, none: UNDEF })) add("handleLLMNewToken", "run " + n, (I, st) => [C("tok"), UNDEF, r]);
    for (const [cb, tag, mk] of cases) {
      const X = mkLC(p, R, tag, { opts: { maxSteps: 6e4 } });
      let s = X.starts;
      const known = /End$|Error$|Token$/.test(cb) ? [true, false] : [false];
      for (const kn of known) {
        let s2 = s.map((x) => ({ st: x.st.clone(), h: x.h }));
        if (kn) s2 = X.seq(s2, "handleToolStart", (I, st) => [serialized(I, st, "in.ser0"), C("x"), id]);
        const out = X.seq(s2, cb, mk);
        R.ob(`${tag}:${cb}:reached`, out.length > 0, "the callback never settles");
      }
      R.entry(cb + " " + tag);
    }
    // the public entry for generations
    for (const [n, m] of Object.entries(EXTRA)) {
      const X = mkLC(p, R, "generation " + n);
      const out = X.seq(X.starts, "handleGenerationStart", (I, st) => [serialized(I, st), arr(I, st, "in.p", [C("q")]), id, UNDEF, m(I, st)]);
      R.ob(`generation ${n}:reached`, out.length > 0, "the callback never settles");
    }
  },
};
