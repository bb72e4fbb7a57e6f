"use strict";
const { L, V, prop, where, canon } = require("./_common.js");
const { runOpenAI, session } = require("./_openai.js");
const { HISTORIES, ORDERS, nameOf } = require("./_oasessions.js");
const { VALUES, CHUNKS, stream, ERR, resolved, rejected } = require("./P36.js");
const { S, C, UNDEF, NULL, single, isConst, constOf, mkVal } = V;
const OBJ = { kind: "object", nullable: false };
module.exports = {
  id: "P37",
  title: "every traced OpenAI call yields one generation, ended exactly once",
  rule: "For SDK methods that return, throw, fulfil, reject or stream (stream exhausted, failing after any chunk, or left by the consumer after any chunk): exactly one generation is started, inside the propagated user, session, tags and trace name, with name, model, input, prompt, metadata and parent of the call; it is ended exactly once on every path, not updated afterwards, marked ERROR with the error's message exactly on failure, and carries the response's output, model and usage on success",
  assumptions: ["a stream that is never iterated has not begun", "tracing calls do not throw"],
  min: 150,
  run(p, R) {
    const cfgs = {
      none: () => UNDEF,
      full: (I, st) =>
        L.mkObj(I, st, "cfg", {
          userId: L.symStr("userId"), sessionId: L.symStr("sessionId"), tags: S("tags", { label: "tags", ty: OBJ }), traceName: L.symStr("traceName"), generationName: L.symStr("genName"), langfusePrompt: S("prompt", { label: "prompt", ty: OBJ }),
          parentSpanContext: S("psc", { label: "psc", ty: OBJ }), generationMetadata: L.mkObj(I, st, "gmd", { mk: S("mv", { label: "mv", ty: { kind: "any", nullable: false } }) }),
        }),
    };
    const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
    const run = (tag, cn, outcome, check, extra = {}) => {
      let started = 0;
      const full = cn === "full";
      const X = runOpenAI(p, R, tag, {
        config: cfgs[cn],
        opts: { stringifyThrows: false },
        outcome,
        onPropagate(info, a) {
          for (const k of ["userId", "sessionId", "tags", "traceName"]) R.ob(`${tag}:propagates-${k}`, full ? lab(prop(info.st, a, k)) === k : lab(prop(info.st, a, k)) === "undefined", `${k} is propagated as ${lab(prop(info.st, a, k))}`, where(info.interp, info));
        },
        onStart(info, a) {
          started++;
          const w = where(info.interp, info), st = info.st;
          R.ob(tag + ":inside-propagation", st.fact("inProp"), "the generation is started outside the propagated attributes", w);
          R.ob(tag + ":name", full ? lab(a[0]) === "genName" : isConst(a[0]) && constOf(a[0]) === "OpenAI." + (extra.path || ["create"])[0], `the generation is named ${lab(a[0])}`, w);
          const g = (k) => prop(st, a[1], k), o = (k) => a[2] && prop(st, a[2], k);
          R.ob(tag + ":type", o("asType") === C("generation"), `started as ${lab(o("asType"))}`, w);
          R.ob(tag + ":parent", lab(o("parentSpanContext")) === (full ? "psc" : "undefined"), `the parent is ${lab(o("parentSpanContext"))}`, w);
          R.ob(tag + ":prompt", lab(g("prompt")) === (full ? "prompt" : "undefined"), `the prompt is ${lab(g("prompt"))}`, w);
          if (!extra.args) {
            R.ob(tag + ":model", lab(g("model")) === "model", `the model is ${lab(g("model"))}`, w);
            R.ob(tag + ":input", g("input") && lab(prop(st, g("input"), "messages")) === "messages", `the input is ${lab(g("input"))}`, w);
          } else if (extra.input) R.ob(tag + ":input", lab(g("input")) === extra.input, `the input is ${lab(g("input"))}`, w);
          if (full) R.ob(tag + ":metadata", g("metadata") && lab(prop(st, g("metadata"), "mk")) === "mv", "the configured metadata is missing", w);
        },
        ...extra,
      });
      R.ob(tag + ":reached", X.results.length > 0 && started > 0, "no generation is started");
      for (const q of X.results) {
        const f = (k) => q.st.fact(k);
        const t = `${tag}:${q.kind}`;
        R.ob(t + ":one", f("gens") === 1, `${f("gens") || 0} generations are started`);
        R.ob(t + ":ended", f("ended") === 1, f("ended") ? `the generation is ended ${f("ended")} times` : "the generation is never ended");
        const failed = q.kind === "throw" || q.kind === "reject" || q.kind === "stream-error";
        R.ob(t + ":level", failed ? f("level") === '"ERROR"' : f("level") === undefined, `the level is ${f("level")}`);
        if (failed) R.ob(t + ":status", f("status") && /err|stream error/i.test(f("status")), `the status message is ${f("status")}`);
        check(q, t, (k) => (f("u." + k) === undefined ? undefined : X["u." + k].get(f("u." + k))), q.st);
      }
      R.entry(tag);
    };
    const nop = () => {};
    // what the generation records for the documented response shapes
    const OUT = {
      "responses, one output": (o) => lab(o) === "o1", "chat, null details": (o) => lab(o) === "msg", chat: (o) => lab(o) === "msg", completion: (o) => o === C("t"), responses: (o) => o === C("hi"),
    };
    const usage = (st, u, want) => u && Object.keys(want).every((k) => prop(st, u, k) === C(want[k]));
    for (const cn of ["none", "full"]) {
      for (const [vn, mk] of Object.entries(VALUES)) {
        run(`${cn}:promise of ${vn}`, cn, (I, st) => resolved(I, st, mk(I, st)), (q, t, u, st) => {
          if (q.kind !== "fulfil") return;
          if (OUT[vn]) R.ob(t + ":output", OUT[vn](u("output")), `the output is ${lab(u("output"))}`);
          if (vn === "chat" || vn === "responses") {
            R.ob(t + ":model", u("model") === C("m"), `the model is ${lab(u("model"))}`);
            R.ob(t + ":usage", usage(st, u("usageDetails"), { input: 2, output: 2, total: 5, input_cached_tokens: 1 }), "the usage is not that of the response");
          }
        });
        if (cn === "full") run(`${cn}:value ${vn}`, cn, (I, st) => [{ k: "ret", v: mk(I, st), st }], nop);
      }
      run(`${cn}:rejection`, cn, (I, st) => rejected(I, st), nop);
      run(`${cn}:throw`, cn, (I, st) => [{ k: "throw", v: ERR, st }], nop);
      for (const kind of Object.keys(CHUNKS))
        for (const n of [0, 1, 3])
          for (const how of ["promise", "direct"]) {
            if (how === "direct" && (n !== 3 || cn === "none")) continue;
            const tag = `${cn}:${how} stream of ${n} ${kind}`;
            const seen = new Set();
            run(tag, cn, (I, st) => (how === "promise" ? resolved(I, st, stream(I, st, kind, n).v) : [{ k: "ret", v: stream(I, st, kind, n).v, st }]), (q, t, u, st) => {
              seen.add(q.kind);
              if (q.kind !== "stream-done") return;
              const o = u("output");
              if (["chat", "text", "chat, usage in each"].includes(kind)) R.ob(t + ":output", o === C(Array.from({ length: n }, (_, i) => "x" + i).join("")), `the output is ${lab(o)}`);
              if (kind === "chat, last with usage" && n) R.ob(t + ":output", o === C(Array.from({ length: n - 1 }, (_, i) => "x" + i).join("")), `the output is ${lab(o)}`), R.ob(t + ":usage", usage(st, u("usageDetails"), { input: 3, output: 2, total: 5 }), "the usage is not that of the stream");
              if (kind === "chat, usage in each" && n) R.ob(t + ":usage", usage(st, u("usageDetails"), { input: 3, output: n - 1, total: 2 + n }), "the usage is not the last of the stream");
              if (kind === "responses" && n) R.ob(t + ":output", o === C("hi"), `the output is ${lab(o)}`), R.ob(t + ":usage", usage(st, u("usageDetails"), { input: 2, output: 2, total: 5, input_cached_tokens: 1 }), "the usage is not that of the stream"), R.ob(t + ":model", u("model") === C("m"), `the model is ${lab(u("model"))}`);
              if (kind === "tool calls" && n) {
                const tc = o && prop(st, o, "tool_calls"), tr = tc && st.rec(single(tc)), e = tr && tr.elems && tr.elems.length === 1 && prop(st, tr.elems[0].v, "function");
                R.ob(t + ":output", e && prop(st, e, "name") === C("f") && prop(st, e, "arguments") === C(n === 1 ? "" : "a1a2"), "the output is not the streamed tool call");
              }
              if (n) R.ob(t + ":start-time", u("completionStartTime") !== undefined, "the time of the first chunk is not recorded");
            });
            R.ob(tag + ":done-reached", seen.has("stream-done"), "the stream never completes");
            R.ob(tag + ":error-reached", seen.has("stream-error"), "a stream error is never reported");
            if (n) R.ob(tag + ":stop-reached", seen.has("stream-stopped"), "the consumer never stops");
          }
      run(`${cn}:nested`, cn, (I, st) => resolved(I, st, VALUES.chat(I, st)), nop, { path: ["chat", "completions", "create"] });
      run(`${cn}:prompt input`, cn, (I, st) => resolved(I, st, VALUES.completion(I, st)), nop, { args: (I, st) => [L.mkObj(I, st, "A", { prompt: L.symStr("promptText"), model: C("m") })], input: "promptText" });
      run(`${cn}:responses input`, cn, (I, st) => resolved(I, st, VALUES.responses(I, st)), nop, { args: (I, st) => [L.mkObj(I, st, "A", { input: C("inputText"), model: C("m") })], input: '"inputText"' });
      run(`${cn}:no args`, cn, (I, st) => resolved(I, st, C("x")), nop, { args: () => [] });
    }
    // histories of known calls: every call has its own generation with its own data
    for (const [hn, calls] of Object.entries(HISTORIES))
      for (const order of ORDERS) {
        if (order === "nested" && !calls[0].out.chunks) continue;
        session(p, R, `${hn}:${order}`, { calls, order, check(c, o, t) {
          const cfg = c.cfg || {}, s = o.start, eq = (k, a, b) => R.ob(`${t}:${k}`, canon(a) === canon(b), `${k} is ${canon(a)}, expected ${canon(b)}`);
          R.ob(t + ":one", o.gens === 1, `${o.gens} generations are started`);
          eq("name", s.name, nameOf(c));
          for (const k of ["userId", "sessionId", "tags", "traceName"]) eq("propagated " + k, (s.prop || {})[k], cfg[k]);
          eq("parent", s.opts.parentSpanContext, cfg.parentSpanContext);
          eq("type", s.opts.asType, "generation");
          eq("prompt", s.attrs.prompt, cfg.langfusePrompt);
          eq("model", s.attrs.model, c.args[0].model);
          eq("input", s.attrs.input, c.input);
          for (const [k, v] of Object.entries(cfg.generationMetadata || {})) eq("metadata " + k, (s.attrs.metadata || {})[k], v);
          R.ob(t + ":ended", o.ended === 1 && !o.late, o.late ? "the generation is changed after its end" : `the generation is ended ${o.ended} times`);
          const failed = !!(c.out.fail || c.out.thrown);
          eq("level", o.upd.level, failed ? "ERROR" : undefined);
          if (failed) R.ob(t + ":status", new RegExp("err" + o.i).test(String(o.upd.statusMessage)), `the status is ${o.upd.statusMessage}`);
          else if (c.pieces) R.ob(t + ":output", o.kind === "stream-stopped" ? String(o.upd.output).startsWith(c.pieces.slice(0, o.yields.length).join("")) && c.pieces.join("").startsWith(String(o.upd.output)) : o.upd.output === c.pieces.join(""), `after ${o.yields.length} chunks the output is ${canon(o.upd.output)}`);
          else if (c.output !== undefined && o.kind !== "stream-stopped") eq("output", o.upd.output, c.output);
          if (o.kind !== "stream-stopped") eq("response usage", o.upd.usageDetails, c.usage), eq("response model", o.upd.model, c.outModel);
        } });
      }
  },
};
