"use strict";
const { L, V, isProcCall, where, mkProcessor, mkSpan } = require("./_common.js");
const { S, C, UNDEF, isConst, constOf } = V;
// attributes written on a span, as the external span object sees them (undefined values are ignored by OpenTelemetry)
function recordAttr(info, spanKey) {
  if (!info.thisV || info.thisV.key !== spanKey) return;
  const set = (k, v) => {
    if (isConst(v) && constOf(v) === undefined) return;
    info.st.setFact("attr:" + k, v.key);
  };
  if (info.name === "setAttribute" && info.args[0] && isConst(info.args[0])) set(constOf(info.args[0]), info.args[1]);
  if (info.name === "setAttributes") for (const a of info.args[0].atoms) {
    const r = info.st.rec(a);
    if (r && r.props) for (const [k, v] of r.props) set(k, v);
  }
}
module.exports = {
  id: "P06",
  title: "started spans carry environment, release and propagated attributes",
  rule: "On every path of onStart: environment/release are the configured value, else the environment variable's, overridden by a propagated value; all propagated attributes are set, except that a prompt already set on the span suppresses the propagated prompt name and version",
  assumptions: ["the set of propagated attributes of a context is the result of the core package's reader (decided by P12)", "OpenTelemetry ignores undefined attribute values"],
  min: 8,
  recordAttr,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    L.needExport(p, "core", "getPropagatedAttributesFromContext");
    const run = (name, { params, prop, attrs, expect }) => {
      let I, sk;
      const hooks = {
        stub(node, info) {
          if (L.fnNameOf(node) === "getPropagatedAttributesFromContext" && info) return L.mkObj(I, info.st, "propagated", prop);
          if (L.fnNameOf(node) === "getLangfuseTraceIdFromBaggage" && info) return S("claim", { ty: { kind: "string", nullable: true } });
          return null;
        },
        onCall(info) {
          recordAttr(info, sk);
          return null;
        },
      };
      const pr = mkProcessor(p, R, hooks, params);
      I = pr.I;
      const span = mkSpan(I, pr.st, "span", attrs);
      sk = span.key;
      R.entry("onStart: " + name);
      const loc = p.loc(L.method(pr.cls, "onStart", I));
      for (const o of L.invoke(I, pr.st, pr.proc, "onStart", [span, L.symObj("ctx")], "onStart"))
        for (const s of I.drain(o.st, L.root))
          for (const [k, v] of Object.entries(expect)) {
            const got = s.fact("attr:" + k);
            const want = v === null ? undefined : v.key;
            R.ob(`${name}:${k}`, got === want, `after onStart attribute ${k} is ${got === undefined ? "not set" : got}, expected ${want === undefined ? "not set" : want}`, { loc });
          }
    };
    const env = L.symStr("cfgEnv"), rel = L.symStr("cfgRel");
    const filter = L.symFn("filter");
    const base = { shouldExportSpan: filter, mask: UNDEF };
    const envSym = (n) => S("env." + n, { ty: { kind: "string", nullable: true } });
    const pEnv = L.symStr("propEnv"), uid = L.symStr("uid"), pn = L.symStr("pn"), pv = S("pv", { ty: { kind: "number", nullable: false } });
    run("configured", { params: { ...base, environment: env, release: rel }, prop: {}, attrs: {}, expect: { [E.ENVIRONMENT]: env, [E.RELEASE]: rel } });
    run("from-env-var", { params: { ...base, environment: UNDEF, release: UNDEF }, prop: {}, attrs: {}, expect: { [E.ENVIRONMENT]: envSym("LANGFUSE_TRACING_ENVIRONMENT"), [E.RELEASE]: envSym("LANGFUSE_RELEASE") } });
    run("propagated", { params: { ...base, environment: env, release: rel }, prop: { [E.ENVIRONMENT]: pEnv, [E.TRACE_USER_ID]: uid, "langfuse.trace.metadata.k": uid, [E.OBSERVATION_PROMPT_NAME]: pn, [E.OBSERVATION_PROMPT_VERSION]: pv }, attrs: {}, expect: { [E.ENVIRONMENT]: pEnv, [E.RELEASE]: rel, [E.TRACE_USER_ID]: uid, "langfuse.trace.metadata.k": uid, [E.OBSERVATION_PROMPT_NAME]: pn, [E.OBSERVATION_PROMPT_VERSION]: pv } });
    run("explicit-prompt", { params: { ...base, environment: env, release: rel }, prop: { [E.TRACE_USER_ID]: uid, [E.OBSERVATION_PROMPT_NAME]: pn, [E.OBSERVATION_PROMPT_VERSION]: pv }, attrs: { [E.OBSERVATION_PROMPT_NAME]: L.symStr("own") }, expect: { [E.TRACE_USER_ID]: uid, [E.OBSERVATION_PROMPT_NAME]: null, [E.OBSERVATION_PROMPT_VERSION]: null } });
  },
};
