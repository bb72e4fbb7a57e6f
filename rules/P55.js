"use strict";
const { L, V, prop, where, konst, readConst, canon } = require("./_common.js");
const { runOpenAI, session } = require("./_openai.js");
const { HISTORIES, ORDERS, nameOf } = require("./_oasessions.js");
const { S, C, UNDEF, single } = V;
const { resolved, rejected, ERR } = require("./P36.js");
const msgs = [{ role: "user", content: "hi" }];
const PARAMS = { frequency_penalty: 0.5, logit_bias: { a: 1 }, logprobs: true, max_tokens: 0, n: 2, presence_penalty: 0.25, seed: 7, stop: ["x"], stream: false, temperature: 0, top_p: 0.9, user: "u", top_logprobs: 3 };
const FORMAT = { type: "json_object" };
const requests = {
  "chat with every parameter": { args: { model: "m", messages: msgs, ...PARAMS, response_format: FORMAT }, input: { messages: msgs }, params: PARAMS, format: FORMAT },
  "chat without parameters": { args: { model: "m", messages: msgs }, input: { messages: msgs }, params: {} },
  "chat with tools": { args: { model: "m", messages: msgs, tools: [{ t: 1 }], tool_choice: "auto" }, input: { messages: msgs, tools: [{ t: 1 }], tool_choice: "auto" }, params: {} },
  "chat with functions": { args: { model: "m", messages: msgs, functions: [{ f: 1 }], function_call: "none" }, input: { messages: msgs, functions: [{ f: 1 }], function_call: "none" }, params: {} },
  "responses with text": { args: { model: "m", input: "hello", temperature: 0.5 }, input: "hello", params: { temperature: 0.5 } },
  "responses with list": { args: { model: "m", input: msgs }, input: msgs, params: {} },
  "completion with prompt": { args: { model: "m", prompt: "once", max_tokens: 5 }, input: "once", params: { max_tokens: 5 } },
  "embedding": { args: { model: "m", input: ["a", "b"] }, input: ["a", "b"], params: {} },
};
const chat = (usage, more) => ({ choices: [{ message: { role: "assistant", content: "yo" } }], usage, ...more });
const resp = (usage, more) => ({ output_text: "yo", usage, ...more });
const RP = { max_output_tokens: 5, parallel_tool_calls: false, store: true, temperature: 0, tool_choice: "auto", top_p: 1, truncation: "disabled", user: "u" };
const RM = { reasoning: { effort: "low" }, incomplete_details: { reason: "max" }, instructions: "be kind", previous_response_id: "r0", tools: [{ t: 1 }], metadata: { k: "v" }, status: "completed", error: { code: "c" } };
const responses = {
  "chat, plain usage": { res: chat({ prompt_tokens: 10, completion_tokens: 5, total_tokens: 15 }, { model: "m2" }), usage: { input: 10, output: 5, total: 15 }, model: "m2" },
  "chat, detailed usage": { res: chat({ prompt_tokens: 10, completion_tokens: 9, total_tokens: 19, prompt_tokens_details: { cached_tokens: 4, audio_tokens: 1 }, completion_tokens_details: { reasoning_tokens: 3, audio_tokens: 2 } }, { model: "m2" }), usage: { input: 5, output: 4, total: 19, input_cached_tokens: 4, input_audio_tokens: 1, output_reasoning_tokens: 3, output_audio_tokens: 2 }, model: "m2" },
  "chat, details above total": { res: chat({ prompt_tokens: 2, completion_tokens: 1, total_tokens: 3, prompt_tokens_details: { cached_tokens: 5 }, completion_tokens_details: { reasoning_tokens: 5 } }), usage: { input: 0, output: 0, total: 3, input_cached_tokens: 5, output_reasoning_tokens: 5 } },
  "chat, zero usage": { res: chat({ prompt_tokens: 0, completion_tokens: 0, total_tokens: 0 }), usage: { input: 0, output: 0, total: 0 } },
  "chat, no usage": { res: chat(undefined, { model: "m2" }), usage: undefined, model: "m2" },
  "responses, detailed usage": { res: resp({ input_tokens: 10, output_tokens: 9, total_tokens: 19, input_tokens_details: { cached_tokens: 4 }, output_tokens_details: { reasoning_tokens: 3 } }, { model: "m2", ...RP, ...RM }), usage: { input: 6, output: 6, total: 19, input_cached_tokens: 4, output_reasoning_tokens: 3 }, model: "m2", params: RP, metadata: RM },
  "responses, details above total": { res: resp({ input_tokens: 1, output_tokens: 1, total_tokens: 2, input_tokens_details: { cached_tokens: 4 }, output_tokens_details: { reasoning_tokens: 3 } }), usage: { input: 0, output: 0, total: 2, input_cached_tokens: 4, output_reasoning_tokens: 3 } },
  "responses, some data": { res: resp({ input_tokens: 1, output_tokens: 2, total_tokens: 3 }, { temperature: 0, status: "completed", top_p: null, error: null }), usage: { input: 1, output: 2, total: 3 }, params: { temperature: 0 }, metadata: { status: "completed" } },
  "no model data": { res: { choices: [] }, usage: undefined },
};
module.exports = {
  id: "P55",
  title: "a traced OpenAI call records the whole request and the response's model data and usage",
  rule: "On constant requests and responses (chat, completion, embedding, responses API; plain and streamed): the generation starts with the call's model, the input (messages with tools and functions, input or prompt), every model parameter given and the response format and configured metadata as metadata, and ends with the response's model, parameters, metadata and usage, where input and output exclude (never below zero) the detailed counts, which are listed under input_ and output_ names; failed calls are recorded with zero cost",
  assumptions: ["the listed constant requests and responses", "a stream of two events"],
  min: 60,
  run(p, R) {
    const lastUpdate = (info, a) => {
      const st = info.st;
      const cur = readConst(st, a);
      const prev = st.fact("upd") ? JSON.parse(st.fact("upd")) : {};
      if (cur && typeof cur === "object") for (const k of Object.keys(cur)) if (cur[k] !== undefined && cur[k] !== null) prev[k] = cur[k];
      st.setFact("upd", JSON.stringify(prev));
    };
    const opts = { stringifyThrows: false };
    for (const withMd of [false, true])
      for (const [name, c] of Object.entries(requests)) {
        const tag = `request:${name}${withMd ? ":metadata" : ""}`;
        let n = 0;
        const X = runOpenAI(p, R, tag, {
          opts,
          config: (I, st) => (withMd ? konst(I, st, "cfg", { generationMetadata: { mk: "mv" } }) : UNDEF),
          args: (I, st) => [konst(I, st, "arg", c.args)],
          outcome: (I, st) => resolved(I, st, konst(I, st, "res", chat(undefined))),
          onStart(info, a) {
            n++;
            const W = where(info.interp, info);
            const g = (k) => readConst(info.st, prop(info.st, a[1], k) || UNDEF);
            R.ob(tag + ":model", g("model") === "m", `the model is ${g("model")}`, W);
            R.ob(tag + ":input", canon(g("input")) === canon(c.input), `the input is ${canon(g("input"))}, expected ${canon(c.input)}`, W);
            const mp = g("modelParameters") || {};
            for (const k of Object.keys(c.params)) R.ob(`${tag}:parameter:${k}`, canon(mp[k]) === canon(c.params[k]), `the parameter ${k} is ${canon(mp[k])}, expected ${canon(c.params[k])}`, W);
            R.ob(tag + ":no-other-parameter", Object.keys(mp).every((k) => k in c.params || mp[k] === undefined || mp[k] === ""), `parameters are made up: ${canon(mp)}`, W);
            const md = g("metadata") || {};
            R.ob(tag + ":format", canon(md.response_format) === canon(c.format), `the recorded response format is ${canon(md.response_format)}`, W);
            R.ob(tag + ":metadata", md.mk === (withMd ? "mv" : undefined), `the configured metadata is ${md.mk}`, W);
          },
        });
        R.entry(tag);
        R.ob(tag + ":reached", n > 0 && X.results.length > 0, "no generation is started");
      }
    for (const how of ["plain", "streamed"])
      for (const [name, c] of Object.entries(responses)) {
        if (how === "streamed" && !name.startsWith("responses") && !c.usage) continue;
        const tag = `${how}:${name}`;
        let n = 0;
        const X = runOpenAI(p, R, tag, {
          opts,
          outcome(I, st) {
            const res = konst(I, st, "res", c.res);
            if (how === "plain") return resolved(I, st, res);
            // a streamed answer: the responses API sends the response last, the chat API the usage
            const ev = name.startsWith("responses") ? [{ type: "delta" }, { type: "completed", response: { $v: res } }] : [{ choices: [{ delta: { content: "yo" } }] }, { choices: [], usage: c.res.usage }];
            const v = konst(I, st, "stream", ev);
            const a = single(v), r = st.rec(a);
            const props = new Map(r.props);
            props.set("@@Symbol.asyncIterator", S("asyncIter", { label: "asyncIterator", ty: { kind: "function", nullable: false } }));
            st.setRec(a, { ...r, props });
            return resolved(I, st, v);
          },
          onUpdate: lastUpdate,
        });
        for (const q of X.results) {
          if (q.kind !== (how === "plain" ? "fulfil" : "stream-done")) continue;
          n++;
          const u = JSON.parse(q.st.fact("upd") || "{}");
          R.ob(tag + ":usage", canon(u.usageDetails) === canon(c.usage), `the usage is ${canon(u.usageDetails)}, expected ${canon(c.usage)}`);
          if (how === "plain" || name.startsWith("responses")) {
            R.ob(tag + ":model", u.model === c.model, `the model is ${u.model}, expected ${c.model}`);
            R.ob(tag + ":parameters", canon(u.modelParameters) === canon(c.params), `the response's parameters are ${canon(u.modelParameters)}, expected ${canon(c.params)}`);
            R.ob(tag + ":metadata", canon(u.metadata) === canon(c.metadata), `the response's metadata is ${canon(u.metadata)}, expected ${canon(c.metadata)}`);
          }
          if (name !== "no model data") R.ob(tag + ":output", /yo/.test(canon(u.output)), `the output is ${canon(u.output)}`);
        }
        R.entry(tag);
        R.ob(tag + ":reached", n > 0, "the call never succeeds");
      }
    for (const [how, outcome] of [["throw", (I, st) => [{ k: "throw", v: ERR, st }]], ["reject", rejected]]) {
      let n = 0;
      const X = runOpenAI(p, R, how, { opts, outcome, onUpdate: lastUpdate });
      for (const q of X.results) {
        n++;
        const u = JSON.parse(q.st.fact("upd") || "{}");
        R.ob(how + ":cost", canon(u.costDetails) === canon({ input: 0, output: 0, total: 0 }), `the cost of a failed call is ${canon(u.costDetails)}`);
      }
      R.entry("failed call: " + how);
      R.ob(how + ":reached", n > 0, "the call never fails");
    }
    // histories of known calls: nothing of one call shows in another
    for (const [hn, calls] of Object.entries(HISTORIES))
      for (const order of ORDERS) {
        if (order === "nested" && !calls[0].out.chunks) continue;
        session(p, R, `${hn}:${order}`, { calls, order, check(c, o, t) {
          const cfg = c.cfg || {}, a = o.start.attrs, eq = (k, x, y) => R.ob(`${t}:${k}`, canon(x) === canon(y), `${k} is ${canon(x)}, expected ${canon(y)}`);
          const { model, messages, input, prompt, tools, functions, tool_choice, function_call, response_format, ...params } = c.args[0];
          eq("model", a.model, model);
          eq("input", a.input, c.input);
          const { response_format: _, ...mp } = a.modelParameters || {};
          eq("parameters", mp, params);
          const { response_format: rf, ...md } = a.metadata || {};
          eq("response format", rf, response_format);
          eq("metadata", md, cfg.generationMetadata || {});
          if (c.out.fail || c.out.thrown) return eq("cost", o.upd.costDetails, { input: 0, output: 0, total: 0 });
          if (c.out.chunks && o.yields.length) R.ob(t + ":first-chunk-time", o.upd.completionStartTime !== undefined && (!/^<chunk \d+>$/.test(o.upd.completionStartTime) || o.upd.completionStartTime === `<chunk ${o.first}>`), `the completion start time is not that of the first chunk`);
          if (o.kind === "stream-stopped") return;
          eq("usage", o.upd.usageDetails, c.usage);
          eq("response model", o.upd.model, c.outModel);
          eq("response parameters", o.upd.modelParameters, c.outParams);
          eq("response metadata", o.upd.metadata, c.outMetadata);
          if (c.output !== undefined) eq("output", o.upd.output, c.output);
          if (c.pieces) eq("output", o.upd.output, c.pieces.join(""));
        } });
      }
  },
};
