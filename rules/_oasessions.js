"use strict";
// Histories of known calls for the OpenAI rules.
const msg = (t) => [{ role: "user", content: t }];
const chunk = (t, more) => ({ choices: [{ index: 0, delta: { content: t } }], ...more });
const tool = (f) => ({ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, function: f }] } }] });
const create = ["chat", "completions", "create"];
// the calls, with what must be recorded
const CALLS = {
  chat: { path: create, args: [{ model: "m1", messages: msg("one"), temperature: 0.1, response_format: { type: "text" } }], input: { messages: msg("one") }, out: { res: { model: "m1-a", choices: [{ message: { role: "assistant", content: "A" } }, { message: { role: "assistant", content: "second" } }], usage: { prompt_tokens: 7, completion_tokens: 3, total_tokens: 11, prompt_tokens_details: { cached_tokens: 2 } } } }, output: { role: "assistant", content: "A" }, outModel: "m1-a", usage: { input: 5, output: 3, total: 11, input_cached_tokens: 2 } },
  chatOptions: { path: create, args: [{ model: "m2", messages: msg("two"), functions: [{ f: 1 }], tools: [{ t: 2 }], seed: 4 }, { timeout: 5 }, "third"], input: { messages: msg("two"), functions: [{ f: 1 }], tools: [{ t: 2 }] }, out: { res: { choices: [{ message: { role: "assistant", content: null, tool_calls: [{ id: "x" }] } }] } }, output: { role: "assistant", content: null, tool_calls: [{ id: "x" }] } },
  toolChoice: { path: create, args: [{ model: "m3", input: "other", messages: msg("three"), tool_choice: "none", function_call: "auto" }], input: { messages: msg("three"), tool_choice: "none", function_call: "auto" }, out: { res: { model: "m3", choices: [] } }, outModel: "m3" },
  responses: { path: ["responses", "create"], args: [{ model: "r1", input: "ask" }], input: "ask", out: { res: { model: "r1-a", output_text: "R", temperature: 0, status: "completed", metadata: { a: "b" }, usage: { input_tokens: 4, output_tokens: 2, total_tokens: 7, output_tokens_details: { reasoning_tokens: 1 } } } }, output: "R", outModel: "r1-a", usage: { input: 4, output: 1, total: 7, output_reasoning_tokens: 1 }, outParams: { temperature: 0 }, outMetadata: { status: "completed", metadata: { a: "b" } } },
  responsesPlain: { path: ["responses", "create"], args: [{ model: "r2", input: [{ role: "user", content: "q" }] }], input: [{ role: "user", content: "q" }], out: { res: { model: "r2-a", output_text: "", output: [{ o: 1 }, { o: 2 }] } }, output: [{ o: 1 }, { o: 2 }], outModel: "r2-a" },
  completion: { path: ["completions", "create"], args: [{ model: "c1", prompt: "once" }], input: "once", out: { res: { model: "c1", choices: [{ text: "upon" }, { text: "no" }] } }, output: "upon", outModel: "c1" },
  fails: { path: create, args: [{ model: "f1", messages: msg("bad") }], input: { messages: msg("bad") }, out: { fail: true } },
  throws: { path: create, args: [{ model: "f2", messages: msg("worse") }], input: { messages: msg("worse") }, out: { thrown: true } },
  stream: { path: create, args: [{ model: "s1", messages: msg("s"), stream: true }], input: { messages: msg("s") }, out: { chunks: [chunk(" Hel"), chunk("lo ", { usage: null }), chunk("you\n"), { choices: [], usage: { prompt_tokens: 6, completion_tokens: 3, total_tokens: 9 } }] }, pieces: [" Hel", "lo ", "you\n", ""], usage: { input: 6, output: 3, total: 9 } },
  stream2: { path: create, args: [{ model: "s2", messages: msg("t"), stream: true }], input: { messages: msg("t") }, out: { chunks: [chunk("x"), chunk("y")] }, pieces: ["x", "y"] },
  streamTools: { path: create, args: [{ model: "s3", messages: msg("u"), stream: true, tools: [{ t: 1 }] }], input: { messages: msg("u"), tools: [{ t: 1 }] }, out: { chunks: [chunk(""), tool({ name: "fn", arguments: "" }), tool({ name: "fn", arguments: "{\"a\"" }), tool({ arguments: ":1}" })] }, output: { tool_calls: [{ function: { name: "fn", arguments: "{\"a\":1}" } }] } },
  streamResponses: { path: ["responses", "create"], args: [{ model: "s4", input: "v", stream: true }], input: "v", out: { chunks: [{ type: "created", response: { model: "s4", output: [], usage: null } }, { type: "in_progress", response: { model: "s4", output: [{ part: 1 }], usage: { input_tokens: 1, output_tokens: 0, total_tokens: 1 } } }, { type: "delta", delta: "z" }, { type: "completed", response: { model: "s4-a", output_text: "zed", output: [{ part: 1 }, { part: 2 }], usage: { input_tokens: 3, output_tokens: 2, total_tokens: 5 } } }] }, output: "zed", outModel: "s4-a", usage: { input: 3, output: 2, total: 5 } },
};
const CFG = { userId: "u1", generationName: "named", tags: ["a"], generationMetadata: { mk: "mv", deep: { x: 1 } }, parentSpanContext: { traceId: "t1", spanId: "p1" } };
const CFG2 = { sessionId: "s1", traceName: "tr", langfusePrompt: { name: "pr", version: 2 } };
const c = (n, more) => ({ name: n, ...CALLS[n], ...more });
const HISTORIES = {
  "same method": [c("chat"), c("chatOptions"), c("toolChoice")],
  "different methods": [c("responses"), c("completion"), c("responsesPlain")],
  "two configurations of one SDK": [c("chat", { cfg: CFG }), c("chatOptions", { cfg: CFG2 }), c("chat")],
  "two SDKs": [c("chat", { cfg: CFG, sdk: 0 }), c("chatOptions", { cfg: CFG, sdk: 1 })],
  "one configuration, two methods": [c("chat", { cfg: CFG2 }), c("responses", { cfg: CFG2 }), c("completion", { cfg: CFG2 })],
  "failures between": [c("fails"), c("chat"), c("throws"), c("completion")],
  streams: [c("stream"), c("stream2")],
  "streams of other kinds": [c("streamTools"), c("stream2", { cfg: CFG }), c("streamResponses")],
  "stream and call": [c("streamResponses"), c("chat"), c("stream")],
};
module.exports = { HISTORIES, ORDERS: ["sequential", "overlapping", "nested"], nameOf: (c) => (c.cfg && c.cfg.generationName) || "OpenAI." + c.path[0] };
