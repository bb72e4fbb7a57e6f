"use strict";
// Scenario of the LangChain rules: a CallbackHandler is constructed and driven by sequences of callbacks; observations
// are recorded, the tracing functions do not throw.
const { L, V, prop, where, readConst } = require("./_common.js");
const { S, C, UNDEF, NULL, single, mkVal } = V;
const OBJ = { kind: "object", nullable: false };
const FN = { kind: "function", nullable: false };
const ANY = { kind: "any", nullable: false };
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
function mkLC(p, R, tag, { params, hooks = {}, opts } = {}) {
  const X = { obs: new Map() };
  let I;
  I = X.I = R.use(
    L.mkInterp(p, {
      debugEnabled: false,
      opts: { K: 48, maxElems: 60, maxSteps: 1.5e6, ...(opts || {}) },
      onLog: hooks.onLog,
      onNew(info) {
        if (info.callee.k !== "bi" || info.callee.name !== "Date" || info.args.length) return null;
        const n = (info.st.fact("dates") || 0) + 1;
        info.st.setFact("dates", n);
        return S("date" + n, { label: "date" + n, ty: OBJ });
      },
      stub(node, info) {
        if (!info) return null;
        const f = node.getSourceFile().fileName;
        const n = L.fnNameOf(node);
        if (!/packages\/(core|tracing)\/src\//.test(f)) return null;
        const st = info.st;
        if (n === "propagateAttributes") {
          const k = "P" + ((st.fact("props") || 0) + 1);
          st.setFact("props", (st.fact("props") || 0) + 1);
          st.setFact("inProp", k);
          (X.propArgs = X.propArgs || new Map()).set(k, info.args[0]);
          if (hooks.snapshot) st.setFact("propData", JSON.stringify(readConst(st, info.args[0]) || {}));
          if (hooks.onPropagate) hooks.onPropagate(info, info.args[0]);
          return I.call(st, info.args[1], UNDEF, [], info.ast, info.frame, info.site + "pa", null).map((o) => (o.st.delFact("inProp"), o.st.delFact("propData"), o));
        }
        if (n === "startActiveObservation" || n === "startObservation") {
          const k = (st.fact("obs") || 0) + 1;
          st.setFact("obs", k);
          const active = n === "startActiveObservation";
          const o = (active ? info.args[2] : info.args[2]) || UNDEF;
          const g = (key) => (o === UNDEF ? UNDEF : prop(st, o, key)) || UNDEF;
          const rec = { name: info.args[0], asType: g("asType"), parent: g("parentSpanContext"), endOnExit: g("endOnExit"), active, w: where(I, info), ctx: st.fact("inProp") || "", prop: st.fact("propData"), attrs: [] };
          X.obs.set(tag + k, rec);
          if (hooks.onStart) hooks.onStart(info, rec);
          const v = L.mkObj(I, st, "obs" + k, {
            update: S("obs.update:" + k, { label: "update", ty: FN }), end: S("obs.end:" + k, { label: "end", ty: FN }), traceId: S("traceId" + k, { label: "traceId" + k, ty: { kind: "string", nullable: false } }), id: S("id" + k, { label: "id" + k, ty: { kind: "string", nullable: false } }),
            otelSpan: L.mkObj(I, st, "otel" + k, { spanContext: S("obs.sc:" + k, { label: "spanContext", ty: FN }) }),
          });
          if (!active) {
            if (info.args[1]) X.I && record(st, k, info.args[1], rec);
            return v;
          }
          return I.call(st, info.args[1], UNDEF, [v], info.ast, info.frame, info.site + "sa", null).map((q) => {
            if (q.k !== "ret" || rec.endOnExit !== C(false)) q.st.setFact("ended:" + k, (q.st.fact("ended:" + k) || 0) + 1);
            return q;
          });
        }
        return null;
      },
      onCall(info) {
        const { callee, st, args } = info;
        const id = callee.id || "";
        let m;
        if ((m = /^obs\.(update|end|sc):(\d+)$/.exec(id))) {
          const k = m[2];
          if (m[1] === "sc") return S("spanContext" + k, { label: "spanContext" + k, ty: OBJ });
          R.ob(`${tag}:no-${m[1]}-after-end`, !st.fact("ended:" + k), `an observation is ${m[1] === "end" ? "ended twice" : "updated after its end"}`, where(I, info));
          if (m[1] === "end") {
            st.setFact("ended:" + k, 1);
            return UNDEF;
          }
          record(st, k, args[0]);
          return mkVal([V.objAtom("obs" + k)]);
        }
        if ((m = /^getType:(\w+)$/.exec(id))) return C(m[1]);
        if (hooks.onCall) return hooks.onCall(info);
        return null;
      },
    }),
  );
  const memo = (X.memo = new Map());
  function record(st, k, a) {
    const x = a && single(a), r = x && x.k === "obj" && st.rec(x);
    if (!r || !r.props) return R.ob(tag + ":attrs-known", false, "the attributes of an observation are not determined");
    if (hooks.snapshot) {
      const c = st.fact("c:" + k) ? JSON.parse(st.fact("c:" + k)) : {};
      for (const [key, v] of r.props) if (v !== UNDEF) c[key] = readConst(st, v);
      st.setFact("c:" + k, JSON.stringify(c));
    }
    for (const [key, v] of r.props) if (v !== UNDEF) st.setFact(`a:${k}:${key}`, v.key), memo.set(v.key, v);
  }
  X.attr = (st, k, key) => {
    const f = st.fact(`a:${k}:${key}`);
    return f === undefined ? undefined : memo.get(f);
  };
  X.info = (k) => X.obs.get(tag + k);
  // the handler
  const st0 = new L.State();
  const cls = L.findClass(p, "langchain", "CallbackHandler");
  X.starts = [];
  for (const o of L.newInstance(I, st0, cls, params ? [params(I, st0)] : [], "handler")) {
    if (R.ob(tag + ":construct", o.k === "ret", "the constructor throws")) X.starts.push({ st: o.st, h: o.v });
  }
  // one callback: awaited to its end; never throws or rejects
  X.cb = (s, name, args) => {
    const outs = [];
    const site = name + ":" + (X.n = (X.n || 0) + 1);
    for (const o of L.invoke(I, s.st, s.h, name, args, site)) {
      if (!R.ob(`${tag}:${name}:no-throw`, o.k === "ret", `${name} throws ${lab(o.v)}`)) continue;
      for (const q of I.awaitVal(o.st, o.v, null, L.root)) {
        if (!R.ob(`${tag}:${name}:no-reject`, q.k === "ret", `${name} rejects with ${lab(q.v)}`)) continue;
        const u = I.unhandled(q.st);
        R.ob(`${tag}:${name}:no-unhandled`, !u.length, u.map((x) => `a promise may reject with ${lab(x.rec.v)} and nobody handles it`).join("; "));
        outs.push({ st: q.st, h: s.h });
      }
    }
    return outs;
  };
  X.seq = (states, name, mk) => states.flatMap((s) => X.cb(s, name, mk(I, s.st)));
  // entries kept in the containers reachable from the handler
  X.kept = (s) => {
    const seen = new Set(), out = [];
    const go = (v, path) => {
      for (const a of v.atoms) {
        if (a.k !== "obj" || seen.has(a.id)) continue;
        seen.add(a.id);
        if (/^obs\d+$/.test(a.id)) { out.push(path + "=" + a.id); continue; }
        const r = s.st.rec(a);
        if (!r || /^in\./.test(a.id)) continue;
        if (r.t === "map" || r.t === "set") {
          if (r.open) out.push(path + ":?");
          for (const e of r.entries.values()) out.push(path + ":" + lab(e.k)), [e.k, e.v].forEach((x) => x && x.atoms && go(x, path + "[]"));
        } else if (r.t === "arr") (r.elems || []).forEach((e) => (out.push(path + ":elem"), go(e.v, path + "[]")));
        else if (r.props) for (const [k, v2] of r.props) {
          if (path !== "" && v2 !== UNDEF) out.push(path + "." + k);
          go(v2, path + "." + k);
        }
      }
    };
    go(s.h, "");
    return out.sort().join(" ");
  };
  return X;
}
// a LangChain message
function msg(I, st, id, type, extra = {}, cls = []) {
  const o = L.mkObj(I, st, id, { content: S(id + ".content", { label: id + ".content", ty: ANY }), getType: S("getType:" + type, { label: "getType", ty: FN }), additional_kwargs: L.mkObj(I, st, id + ".ak", {}), name: UNDEF, ...extra });
  const a = single(o);
  st.setRec(a, { ...st.rec(a), extIs: ["BaseMessage", ...cls] });
  return o;
}
const serialized = (I, st, id = "ser", ids = ["langchain", "Thing"]) => L.mkObj(I, st, id, { id: L.mkArr(I, st, id + ".id", ids.map((x) => C(x))) });
module.exports = { mkLC, msg, serialized, lab };
