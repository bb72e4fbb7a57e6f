"use strict";
const { L, V, konst, readConst, canon } = require("./_common.js");
const { scripts } = require("./_lcscripts.js");
const { mkLC } = require("./_langchain.js");
const { S, C, UNDEF, single } = V;
const FN = { kind: "function", nullable: false };
// a constant message
const M = (type, content, more = {}) => ({ $msg: type, content, additional_kwargs: {}, ...more });
const ROLES = { ai: ["AIMessage"], aiChunk: ["AIMessageChunk"] };
function build(I, st, id, x) {
  if (x === null || typeof x !== "object") return C(x);
  if (x.$v) return x.$v;
  if (Array.isArray(x)) return L.mkArr(I, st, id, x.map((y, i) => build(I, st, id + "." + i, y)));
  const { $msg, ...rest } = x;
  const props = Object.fromEntries(Object.entries(rest).map(([k, y]) => [k, build(I, st, id + "." + k, y)]));
  if (!$msg) {
    const o = L.mkObj(I, st, id, props), a = single(o);
    st.setRec(a, { ...st.rec(a), extIs: [] });
    return o;
  }
  const o = L.mkObj(I, st, id, { name: UNDEF, ...props, getType: S("getType:" + $msg.replace("Chunk", ""), { label: "getType", ty: FN }) });
  const a = single(o);
  st.setRec(a, { ...st.rec(a), extIs: ["BaseMessage", ...(ROLES[$msg] || [])] });
  return o;
}
const TC = [{ id: "t1", name: "f", args: { a: 1 } }];
const TC2 = [{ id: "k1" }];
// message -> what is recorded
const MSGS = {
  human: [M("human", "hi"), { role: "user", content: "hi" }],
  "human with parts": [M("human", [{ type: "text", text: "hi" }]), { role: "user", content: [{ type: "text", text: "hi" }] }],
  "empty human": [M("human", ""), { role: "user", content: "" }],
  generic: [M("generic", "hi"), { role: "human", content: "hi" }],
  system: [M("system", "be"), { role: "system", content: "be" }],
  ai: [M("ai", "yo"), { role: "assistant", content: "yo" }],
  "ai with tool calls": [M("ai", "", { tool_calls: TC }), { role: "assistant", content: "", tool_calls: TC }],
  "ai with no tool calls": [M("ai", "yo", { tool_calls: [] }), { role: "assistant", content: "yo" }],
  "ai with raw tool calls": [M("ai", "", { additional_kwargs: { tool_calls: TC2 } }), { role: "assistant", content: "", tool_calls: TC2 }],
  "ai with function call": [M("ai", "", { tool_calls: [], additional_kwargs: { function_call: { name: "f" } } }), { role: "assistant", content: "", additional_kwargs: { function_call: { name: "f" } } }],
  "ai with other extras": [M("ai", "yo", { additional_kwargs: { x: 1 } }), { role: "assistant", content: "yo" }],
  function: [M("function", "42", { name: "calc", additional_kwargs: { x: 1 } }), { role: "calc", content: "42", additional_kwargs: { x: 1 } }],
  tool: [M("tool", "42", { name: "calc", additional_kwargs: { x: 1 } }), { role: "calc", content: "42", additional_kwargs: { x: 1 } }],
  other: [M("custom", "z"), { content: "z" }],
  "other with name": [M("custom", "z", { name: "bob" }), { role: "bob", content: "z" }],
  "other with function call": [M("custom", "z", { name: "bob", additional_kwargs: { function_call: { name: "f" } } }), { role: "bob", content: "z", additional_kwargs: { function_call: { name: "f" } } }],
};
const all = Object.values(MSGS);
const RAW = all.map((x) => x[0]), WANT = all.map((x) => x[1]);
const SER = { lc: 1, type: "constructor", id: ["langchain", "chains", "Thing"] };
const NOID = { lc: 1, type: "constructor", id: [] };
const RID = "run-1";
// name: [callback, leading arguments, first recorded attributes]; the start callbacks take (ser, input, run, parent, ...)
const chain = (inputs, { tags, meta, name, ser } = {}) => ["handleChainStart", [ser || SER, inputs, RID, undefined, tags, meta, undefined, name]];
const llm = (prompts, { tags, meta, name, ser, extra } = {}) => ["handleLLMStart", [ser || SER, prompts, RID, undefined, extra, tags, meta, name]];
const chat = (msgs, { tags, meta, name, ser, extra } = {}) => ["handleChatModelStart", [ser || SER, msgs, RID, undefined, extra, tags, meta, name]];
const tool = (input, { tags, meta, name, ser } = {}) => ["handleToolStart", [ser || SER, input, RID, undefined, tags, meta, name]];
const retr = (input, { tags, meta, name, ser } = {}) => ["handleRetrieverStart", [ser || SER, input, RID, undefined, tags, meta, name]];
const agent = (a) => ["handleAgentAction", [a, RID, undefined]];
const ACTION = { tool: "search", toolInput: "q", log: "l" };
const PARAMS = { temperature: 0, max_tokens: 10, top_p: 0.5, frequency_penalty: 0.25, presence_penalty: -1, request_timeout: 30 };
const INPUTS = {
  "chain, values": [chain({ a: 1, b: "x" }), { input: { a: 1, b: "x" } }],
  "chain, text": [chain("just text"), { input: "just text" }],
  "chain, input messages": [chain({ input: RAW }), { input: WANT }],
  "chain, messages": [chain({ messages: RAW, k: 1 }), { input: WANT }],
  "chain, input text": [chain({ input: "q" }), { input: { input: "q" } }],
  "chain, input not messages": [chain({ input: [1, 2] }), { input: { input: [1, 2] } }],
  "chain, messages not messages": [chain({ messages: [{ role: "user" }] }), { input: { messages: [{ role: "user" }] } }],
  "chain, content": [chain({ content: "c" }), { input: "c" }],
  "chain, content and more": [chain({ content: "c", d: 1 }), { input: { content: "c", d: 1 } }],
  "chain, content not text": [chain({ content: [1] }), { input: { content: [1] } }],
  "llm, prompts": [llm(["a", "b"]), { input: ["a", "b"] }],
  "chat, one list": [chat([RAW]), { input: WANT }],
  "chat, two lists": [chat([[RAW[0]], [RAW[5]]]), { input: [WANT[0], WANT[5]] }],
  "tool": [tool("in"), { input: "in" }],
  "retriever": [retr("query"), { input: "query" }],
  "agent": [agent(ACTION), { input: ACTION, $name: "search" }],
  "llm, tools": [llm(["a"], { extra: { invocation_params: { tools: [{ t: 1 }] } } }), { input: { messages: ["a"], tools: [{ t: 1 }] } }],
  "llm, tool choice": [llm(["a"], { extra: { invocation_params: { tool_choice: "auto" } } }), { input: { messages: ["a"], tool_choice: "auto" } }],
  "chat, tools and choice": [chat([[RAW[0]]], { extra: { invocation_params: { tools: [], tool_choice: { x: 1 } } } }), { input: { messages: [WANT[0]], tools: [], tool_choice: { x: 1 } } }],
  "llm, all parameters": [llm(["a"], { extra: { invocation_params: { ...PARAMS, model: "m1", other: 1 } } }), { modelParameters: PARAMS, model: "m1" }],
  "chat, all parameters": [chat([[RAW[0]]], { extra: { invocation_params: { ...PARAMS, model: "m1", other: 1 } } }), { modelParameters: PARAMS, model: "m1" }],
  "llm, some parameters": [llm(["a"], { extra: { invocation_params: { temperature: null, max_tokens: 0, model: null } }, meta: { ls_model_name: "m2" } }), { modelParameters: { max_tokens: 0 }, model: "m2" }],
  "llm, model of call and metadata": [llm(["a"], { extra: { invocation_params: { model: "m1" } }, meta: { ls_model_name: "m2" } }), { model: "m1" }],
  "llm, model of metadata": [llm(["a"], { extra: {}, meta: { ls_model_name: "m2" } }), { model: "m2", modelParameters: {} }],
  "llm, no model": [llm(["a"], { extra: { invocation_params: {} }, meta: { other: "m2" } }), { model: undefined, modelParameters: {} }],
};
for (const [k, f, i] of [["chain", chain, "x"], ["llm", llm, ["x"]], ["chat", chat, [[]]], ["tool", tool, "x"], ["retriever", retr, "x"]]) {
  const type = k === "llm" || k === "chat" ? "generation" : k === "tool" ? "tool" : undefined;
  INPUTS[k + ", named"] = [f(i, { name: "nm" }), { $name: "nm", $type: type }];
  INPUTS[k + ", named by class"] = [f(i), { $name: "Thing", $type: type }];
  INPUTS[k + ", unnamed"] = [f(i, { ser: NOID }), { $name: { chain: "Langchain Run", llm: "Langchain Generation", chat: "Langchain Generation", tool: "Tool execution", retriever: "Retriever" }[k] }];
  INPUTS[k + ", tags and metadata"] = [f(i, { tags: ["t1", "t2"], meta: { a: 1, n: null, langfusePrompt: { name: "p" }, langfuseUserId: "u", langfuseSessionId: "s" } }), { metadata: { tags: ["t1", "t2"], a: 1, n: null }, level: undefined }];
  INPUTS[k + ", only tags"] = [f(i, { tags: ["t1"] }), { metadata: { tags: ["t1"] }, level: undefined }];
  INPUTS[k + ", only metadata"] = [f(i, { tags: [], meta: { langfuse: 1 } }), { metadata: { langfuse: 1 }, level: undefined }];
  INPUTS[k + ", hidden"] = [f(i, { tags: ["t1", "langsmith:hidden"] }), { metadata: { tags: ["t1", "langsmith:hidden"] }, level: "DEBUG" }];
}
const gens = (...g) => ({ generations: g });
const AI = (more, cls = "ai") => M(cls, "yo", { response_metadata: {}, ...more });
const UM = { input_tokens: 10, output_tokens: 9, total_tokens: 19 };
const ENDS = {
  "chain, values": ["chain", "handleChainEnd", { a: 1 }, { output: { a: 1 } }],
  "chain, text": ["chain", "handleChainEnd", "text", { output: "text" }],
  "chain, output text": ["chain", "handleChainEnd", { output: "o", b: 1 }, { output: "o" }],
  "chain, empty output": ["chain", "handleChainEnd", { output: "" }, { output: "" }],
  "chain, output not text": ["chain", "handleChainEnd", { output: [1] }, { output: { output: [1] } }],
  "chain, messages": ["chain", "handleChainEnd", { messages: RAW }, { output: { messages: WANT } }],
  "chain, other messages": ["chain", "handleChainEnd", { messages: [{ x: 1 }] }, { output: { messages: [{ x: 1 }] } }],
  tool: ["tool", "handleToolEnd", "out", { output: "out" }],
  "tool, empty": ["tool", "handleToolEnd", "", { output: "" }],
  retriever: ["retriever", "handleRetrieverEnd", [{ pageContent: "d", metadata: { s: 1 } }], { output: [{ pageContent: "d", metadata: { s: 1 } }] }],
  agent: ["agent", "handleAgentEnd", { returnValues: { o: 1 }, log: "l" }, { output: { returnValues: { o: 1 }, log: "l" } }],
  "llm, text": ["llm", "handleLLMEnd", gens([{ text: "a" }]), { output: "a" }],
  "llm, last of several": ["llm", "handleLLMEnd", gens([{ text: "a" }, { text: "b" }], [{ text: "c" }, { text: "d" }]), { output: "d" }],
  "llm, text with token usage": ["llm", "handleLLMEnd", { ...gens([{ text: "a" }]), llmOutput: { tokenUsage: { promptTokens: 4, completionTokens: 0, totalTokens: 4 } } }, { output: "a", usageDetails: { input: 4, output: 0, total: 4 } }],
  "llm, no usage": ["llm", "handleLLMEnd", { ...gens([{ text: "a" }]), llmOutput: {} }, { usageDetails: {} }],
  "llm, nothing": ["llm", "handleLLMEnd", gens([]), { output: undefined, usageDetails: {} }],
  "chat, usage of message": ["llm", "handleLLMEnd", { ...gens([{ text: "t", message: AI({ usage_metadata: UM, response_metadata: { model_name: "m9" } }) }]), llmOutput: { tokenUsage: { promptTokens: 1, completionTokens: 1, totalTokens: 2 } } }, { output: { role: "assistant", content: "yo" }, usageDetails: { input: 10, output: 9, total: 19 }, model: "m9" }],
  "chat, usage of chunk": ["llm", "handleLLMEnd", gens([{ text: "t", message: AI({ usage_metadata: UM, response_metadata: { model_name: "m9" } }, "aiChunk") }]), { output: { role: "assistant", content: "yo" }, usageDetails: { input: 10, output: 9, total: 19 }, model: "m9" }],
  "chat, no usage in message": ["llm", "handleLLMEnd", { ...gens([{ text: "t", message: AI({}) }]), llmOutput: { tokenUsage: { promptTokens: 1, completionTokens: 1, totalTokens: 2 } } }, { usageDetails: { input: 1, output: 1, total: 2 }, model: undefined }],
  "chat, detailed usage": ["llm", "handleLLMEnd", gens([{ text: "t", message: AI({ usage_metadata: { ...UM, input_token_details: { cache_read: 4, audio: 1 }, output_token_details: { reasoning: 3, note: "x" } } }) }]), { usageDetails: { input: 5, output: 6, total: 19, input_cache_read: 4, input_audio: 1, output_reasoning: 3, output_note: "x" } }],
  "chat, details above total": ["llm", "handleLLMEnd", gens([{ text: "t", message: AI({ usage_metadata: { input_tokens: 1, output_tokens: 2, total_tokens: 3, input_token_details: { cache_read: 4 }, output_token_details: { reasoning: 30 } } }) }]), { usageDetails: { input: 0, output: 0, total: 3, input_cache_read: 4, output_reasoning: 30 } }],
  "chat, tool calls": ["llm", "handleLLMEnd", gens([{ text: "t", message: AI({ tool_calls: TC }) }]), { output: { role: "assistant", content: "yo", tool_calls: TC } }],
};
const STARTS = { chain: chain("x"), llm: llm(["x"]), tool: tool("x"), retriever: retr("x"), agent: agent(ACTION) };
const PLAIN = new Set(["tool", "retriever"]);
const ERRS = { text: ["boom", "boom"], refusal: [{ error: { code: "filter" } }, "filter"], undefined: [undefined, "undefined"] };
module.exports = {
  id: "P56",
  title: "LangChain runs record their inputs, outputs, model data, usage, names and tags",
  rule: "On constant runs: each start records the run's name (given, else class, else default), type, input (messages as role and content with their tool calls), tags and metadata without langfuse keys, DEBUG level for hidden runs, and for models the model, the given parameters, tools and tool choice; each end records the run's output and for models the response's model and usage, where input and output exclude (never below zero) the detailed counts; an error records its text and the details it carries",
  assumptions: ["the listed constant messages, inputs, outputs and usage forms", "tracing calls and the logger do not throw"],
  min: 150,
  run(p, R) {
    const opts = { stringifyThrows: false };
    const args = (a) => (I, st) => a.map((x, i) => (x === undefined ? UNDEF : build(I, st, "in." + (I.__n = (I.__n || 0) + 1) + "." + i, x)));
    const cmp = (X, tag, s, want) => {
      for (const [k, w] of Object.entries(want)) {
        if (k === "$name") { const g = readConst(s.st, X.info(1).name); R.ob(`${tag}:name`, g === w, `the observation is called ${g}, expected ${w}`, X.info(1).w); continue; }
        if (k === "$type") { const g = readConst(s.st, X.info(1).asType); R.ob(`${tag}:type`, g === w || (w === undefined && g === "span"), `the observation is a ${g}, expected ${w || "span"}`, X.info(1).w); continue; }
        const v = X.attr(s.st, 1, k);
        const g = v ? readConst(s.st, v) : undefined;
        R.ob(`${tag}:${k}`, canon(g) === canon(w), `${k} is ${canon(g)}, expected ${canon(w)}`, X.info(1) && X.info(1).w);
      }
    };
    for (const [name, [[cb, a], want]] of Object.entries(INPUTS)) {
      const tag = "start: " + name;
      const X = mkLC(p, R, tag, { opts });
      const ss = X.seq(X.starts, cb, args(a));
      R.entry(tag);
      R.ob(tag + ":reached", ss.length > 0 && !!X.info(1), "no observation is started");
      if (X.info(1)) for (const s of ss) cmp(X, tag, s, want);
    }
    for (const [name, [kind, cb, out, want]] of Object.entries(ENDS)) {
      const tag = "end: " + name;
      const X = mkLC(p, R, tag, { opts });
      let ss = X.seq(X.starts, STARTS[kind][0], args(STARTS[kind][1]));
      ss = X.seq(ss, cb, args([out, RID]));
      R.entry(tag);
      R.ob(tag + ":reached", ss.length > 0 && ss.every((s) => s.st.fact("ended:1")), "the observation is not ended");
      for (const s of ss) cmp(X, tag, s, want);
    }
    for (const [kind, cb] of [["chain", "handleChainError"], ["llm", "handleLLMError"], ["tool", "handleToolError"], ["retriever", "handleRetrieverError"]])
      for (const [name, [err, text]] of Object.entries(ERRS)) {
        const tag = `error: ${kind}, ${name}`;
        const X = mkLC(p, R, tag, { opts });
        let ss = X.seq(X.starts, STARTS[kind][0], args(STARTS[kind][1]));
        ss = X.seq(ss, cb, args([err, RID]));
        R.entry(tag);
        R.ob(tag + ":reached", ss.length > 0, "the callback never returns");
        for (const s of ss) {
          const v = X.attr(s.st, 1, "statusMessage");
          const g = v ? String(readConst(s.st, v)) : "";
          R.ob(tag + ":level", readConst(s.st, X.attr(s.st, 1, "level")) === "ERROR", "the failure is not recorded as an error");
          if (!(PLAIN.has(kind) && name === "refusal")) R.ob(tag + ":message", g.includes(text), `the status message is ${g}, expected to contain ${text}`);
        }
      }
    scripts(p, R, ["data"]); // histories of known events
  },
};
