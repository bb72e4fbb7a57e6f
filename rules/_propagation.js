"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkBag, mkCtx, EMPTY, ctxOf, bagOf, ctxHooks } = require("./_ctx.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const KEYS = {
  userId: ["TRACE_USER_ID", "user_id"],
  sessionId: ["TRACE_SESSION_ID", "session_id"],
  version: ["VERSION", "version"],
  traceName: ["TRACE_NAME", "trace_name"],
  environment: ["ENVIRONMENT", "environment"],
  tags: ["TRACE_TAGS", "tags"],
  promptName: ["OBSERVATION_PROMPT_NAME", "prompt_name"],
  promptVersion: ["OBSERVATION_PROMPT_VERSION", "prompt_version"],
  experimentId: ["EXPERIMENT_ID", "experiment_id"],
  experimentName: ["EXPERIMENT_NAME", "experiment_name"],
  experimentMetadata: ["EXPERIMENT_METADATA", "experiment_metadata"],
  experimentDatasetId: ["EXPERIMENT_DATASET_ID", "experiment_dataset_id"],
  experimentItemId: ["EXPERIMENT_ITEM_ID", "experiment_item_id"],
  experimentItemMetadata: ["EXPERIMENT_ITEM_METADATA", "experiment_item_metadata"],
  experimentItemRootObservationId: ["EXPERIMENT_ITEM_ROOT_OBSERVATION_ID", "experiment_item_root_observation_id"],
};
// plain JS value <-> abstract value
function toV(I, st, id, x) {
  if (Array.isArray(x)) return L.mkArr(I, st, id, x.map((y, i) => toV(I, st, id + "." + i, y)));
  if (x && x.atoms) return x;
  if (x && typeof x === "object") return L.mkObj(I, st, id, Object.fromEntries(Object.entries(x).map(([k, y]) => [k, toV(I, st, id + "." + k, y)])));
  return C(x);
}
// canonical text of an abstract value (arrays and objects by content)
function show(st, v) {
  if (!v) return "absent";
  const a = single(v);
  if (a && a.k === "obj") {
    const r = st.rec(a);
    if (r.t === "arr" && r.elems && !r.sum && !r.elems.some((e) => e.m)) return "[" + r.elems.map((e) => show(st, e.v)).join(",") + "]";
    if (r.t === "obj" && !r.open && !r.abs.length && !r.spreads.length) return "{" + [...r.props].map(([k, w]) => k + ":" + show(st, w)).sort().join(",") + "}";
    return "?" + r.t;
  }
  return v.atoms.map((x) => (x.k === "const" ? JSON.stringify(x.v) : x.key)).join("|");
}
const shown = (x) => (Array.isArray(x) ? "[" + x.map(shown).join(",") + "]" : x && x.atoms ? show(null, x) : JSON.stringify(x));
// attributes of a plain params object that a reader of the context has to see (all values valid)
function expected(E, P) {
  const out = {};
  for (const k of ["userId", "sessionId", "version", "traceName", "environment"]) if (P[k] !== undefined) out[E[KEYS[k][0]]] = shown(P[k]);
  if (P.tags && P.tags.length) out[E.TRACE_TAGS] = shown(P.tags);
  for (const [k, v] of Object.entries(P.metadata || {})) out[E.TRACE_METADATA + "." + k] = shown(v);
  if (P.prompt) {
    out[E.OBSERVATION_PROMPT_NAME] = shown(P.prompt.name);
    out[E.OBSERVATION_PROMPT_VERSION] = shown(Number(P.prompt.version));
  }
  for (const [k, v] of Object.entries(P._internalExperiment || {})) if (v !== undefined) out[E[KEYS[k][0]]] = shown(v);
  return out;
}
function mkPropagation(p, R, o = {}) {
  const X = { ctxs: new Map(), ran: 0 };
  const E = (X.E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes"));
  const P = { I: null, current: (st) => X.ctxs.get(st.fact("ctx")) || o.ambient || EMPTY, span: o.span ? S("aspan", { label: "aspan", ty: { kind: "object", nullable: false } }) : UNDEF };
  const H = ctxHooks(() => P, {
    onCall(info) {
      const st = info.st;
      if (o.span && info.thisV && info.thisV.key === P.span.key) {
        if (info.name === "isRecording") return C(o.span === "recording");
        const rec = (k, v) => {
          st.setFact("sattr:" + (isConst(k) ? constOf(k) : "?" + k.key), show(st, v));
        };
        if (info.name === "setAttribute") rec(info.args[0], info.args[1]);
        if (info.name === "setAttributes") for (const [k, v] of (st.rec(single(info.args[0])) || { props: [] }).props || []) rec(C(k), v);
        return info.thisV;
      }
      const c = info.callee;
      if (c.k === "sym" && /^fn/.test(c.id || "")) {
        st.setFact("calls:" + c.id, (st.fact("calls:" + c.id) || 0) + 1);
        X.onFn && X.onFn(info, X.ctxs.get(st.fact("ctx")) || UNDEF, c.id);
        if (X.body && X.body[c.id]) return X.body[c.id](info);
        const s2 = st.clone();
        return [
          { k: "ret", v: S("res:" + c.id, { taint: [], ty: { kind: "any", nullable: true } }), st },
          { k: "throw", v: S("thrown:" + c.id, { ty: { kind: "any", nullable: true } }), st: s2 },
        ];
      }
      return null;
    },
  });
  X.I = P.I = R.use(L.mkInterp(p, { debugEnabled: false, opts: { K: 64, maxSteps: 4e6, maxGen: 40 }, ...H, onWith(info) { X.ctxs.set(info.args[0].key, info.args[0]); }, onLog: o.onLog }));
  X.st = new L.State();
  X.fn = (id = "fn") => S(id, { label: id, ty: { kind: "function", nullable: false } });
  X.propagate = (st, params, fn, site = "prop") => L.callFunction(X.I, st, L.findFunction(p, "core", "propagateAttributes"), [toV(X.I, st, "params:" + site, params), fn], site);
  // attributes seen by a reader of the context, as plain text; null if not determined
  X.read = (st, ctx) => {
    const res = [];
    for (const q of L.callFunction(X.I, st.clone(), L.findFunction(p, "core", "getPropagatedAttributesFromContext"), [ctx], "read")) {
      if (q.k !== "ret") {
        res.push({ error: "reading the context throws " + L.labelsOf(q.v) });
        continue;
      }
      const r = q.st.rec(single(q.v));
      if (!r || r.abs.length || r.spreads.length) {
        res.push({ error: "the attributes read from the context are not determined" });
        continue;
      }
      const m = {};
      for (const [k, v] of r.props) if (!(isConst(v) && constOf(v) === undefined)) m[k] = show(q.st, v);
      res.push({ attrs: m });
    }
    return res;
  };
  X.spanAttrs = (st) => {
    const m = {};
    for (const [k, v] of st.facts) if (k.startsWith("sattr:")) m[k.slice(6)] = v;
    return m;
  };
  return X;
}
const same = (a, b) => {
  const ka = Object.keys(a).sort(), kb = Object.keys(b).sort();
  for (const k of kb) if (!(k in a)) return `${k} is missing`;
  for (const k of ka) if (!(k in b)) return `${k} is set to ${a[k]}`;
  for (const k of ka) if (a[k] !== b[k]) return `${k} is ${a[k]} instead of ${b[k]}`;
  return null;
};
module.exports = { KEYS, mkPropagation, expected, same, show, toV, mkBag, mkCtx, EMPTY, ctxOf, bagOf };
