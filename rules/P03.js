"use strict";
const { L, V, joinOuts } = require("./_common.js");
const { C, strVal, isConst, constOf } = V;
const SCOPES = ["agent_framework", "ai", "haystack", "langsmith", "litellm", "openinference", "opentelemetry.instrumentation.anthropic", "opentelemetry.instrumentation.aws_bedrock", "opentelemetry.instrumentation.bedrock", "opentelemetry.instrumentation.gemini", "opentelemetry.instrumentation.google_genai", "opentelemetry.instrumentation.google_generativeai", "opentelemetry.instrumentation.openai", "opentelemetry.instrumentation.openai_v2", "opentelemetry.instrumentation.vertex_ai", "opentelemetry.instrumentation.vertexai", "strands-agents", "vllm"];
module.exports = {
  id: "P03",
  title: "the default export filter keeps LLM spans and nothing else",
  rule: "For every class of spans (scope name, attribute-key prefix, arbitrary suffixes kept symbolic) the abstract result of the default filter is the constant the documented rule demands",
  assumptions: ["the list of supported LLM instrumentation scopes is the documented one, frozen in the rule; additions are accepted"],
  min: 60,
  run(p, R) {
    const fn = L.findFunction(p, "otel", "isDefaultExportSpan");
    const tracer = (() => {
      const s = L.needExport(p, "core", "LANGFUSE_TRACER_NAME");
      const t = p.checker.getTypeOfSymbolAtLocation(s, s.valueDeclaration);
      if (!t.isStringLiteral()) throw new L.AnchorError("LANGFUSE_TRACER_NAME is not a constant");
      return t.value;
    })();
    R.ob("tracer-name", tracer === "langfuse-sdk", "spans created by the SDK are recognised by the tracer name 'langfuse-sdk'", {});
    const k = L.symStr("k");
    const decide = (scope, keys) => {
      const I = R.use(L.mkInterp(p));
      const st = new L.State();
      const at = L.mkObj(I, st, "attrs", Object.fromEntries(keys.filter((x) => typeof x === "string").map((x) => [x, V.S("v:" + x)])));
      const abs = keys.filter((x) => typeof x !== "string").map((x) => ({ key: x.atoms[0].key, atom: x.atoms[0], v: V.S("v") }));
      st.setRec(at.atoms[0], { ...st.rec(at.atoms[0]), abs });
      const sc = L.mkObj(I, st, "scope", { name: typeof scope === "string" ? C(scope) : scope });
      const span = L.mkObj(I, st, "span", { attributes: at, instrumentationScope: sc });
      return L.callFunction(I, st, fn, [span]);
    };
    // present: exact keys certainly present. abstract key (prefix+unknown) may be present, so the result may be either
    const want = (key, scope, keys, exp) => {
      const outs = decide(scope, keys);
      for (const o of outs) {
        R.ob(key, o.k === "ret" && isConst(o.v) && constOf(o.v) === exp, `default filter is ${o.k === "ret" ? L.labelsOf(o.v) : "throwing"} for this class of spans, the documented rule says ${exp}`, { loc: p.loc(fn) });
      }
    };
    R.entry("isDefaultExportSpan(span)");
    want("keep:langfuse-tracer", tracer, [], true);
    want("keep:langfuse-tracer-other-attrs", tracer, ["http.method"], true);
    want("drop:langfuse-tracer-suffix", strVal([tracer + "X", k]), [], false);
    for (const a of ["gen_ai.system", "gen_ai.x", "gen_ai.request.model"]) {
      want("keep:attr:" + a, "any-scope", [a], true);
      want("keep:attr-last:" + a, "any-scope", ["http.method", "x.gen_ai.y", a], true);
    }
    for (const a of ["gen_ai", "genai.system", "x.gen_ai.system", "gen_aix.y", "ai.model"]) want("drop:attr:" + a, "any-scope", [a], false);
    for (const s of SCOPES) {
      want("keep:scope:" + s, s, [], true);
      if (s === "ai") {
        want("drop:scope:ai.*", strVal(["ai.", k]), [], false);
      } else want("keep:scope:" + s + ".*", strVal([s + ".", k]), [], true);
      if (s !== "opentelemetry.instrumentation.openai") want("drop:scope:" + s + "-*", strVal([s + "-", k]), [], false);
      want("drop:scope:x/" + s, "x/" + s, [], false);
    }
    for (const s of ["", "opentelemetry", "opentelemetry.instrumentation", "opentelemetry.instrumentation.http", "@opentelemetry/instrumentation-http", "express", "langfuse"]) want("drop:scope:" + (s || "empty"), s, ["http.method"], false);
    // and it is the filter actually used when none is configured
    const cls = L.findClass(p, "otel", "LangfuseSpanProcessor");
    const { mkProcessor, mkSpan, isProcCall } = require("./_common.js");
    for (const [scope, exp] of [["express", 0], ["openinference", 1]]) {
      let I;
      const pr = mkProcessor(p, R, { opts: { stringifyThrows: false }, onCall: (i) => (isProcCall(i, "onEnd") ? (i.st.count("handed"), null) : null) }, { shouldExportSpan: V.UNDEF, mediaUploadEnabled: C(false), mask: V.UNDEF });
      I = pr.I;
      const span = mkSpan(I, pr.st, "span", {}, [], { props: { instrumentationScope: L.mkObj(I, pr.st, "sc", { name: C(scope) }) } });
      for (const o of L.invoke(I, pr.st, pr.proc, "onEnd", [span], "onEnd")) for (const s of I.drain(o.st, L.root)) R.ob(`used-by-default:${scope}`, (s.fact("handed") || 0) === exp, `with no filter configured a span of scope ${scope} is handed over ${s.fact("handed") || 0} times, expected ${exp}`, { loc: p.loc(cls) });
      R.entry("onEnd with no filter configured, scope " + scope);
    }
  },
};
