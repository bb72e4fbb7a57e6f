"use strict";
// Shared scenario builders for the rules. A scenario builds abstract instances through the public API of a
// package (constructor, method, exported function) with unknown inputs and observes calls that leave the repo.
const L = require("../engine/scenario.js");
const { V } = L;
const { mergeStates } = require("../engine/interp.js");
const { C, S, UNDEF, mkVal, strVal, union, single, isConst, constOf, taintOf, taintOfAtom, objAtom } = V;

// join all normal outcomes into one abstract state (values become unions); abrupt outcomes are returned separately
function joinOuts(outs) {
  const ret = outs.filter((o) => o.k === "ret");
  const thr = outs.filter((o) => o.k === "throw");
  if (!ret.length) return { st: null, v: null, thr };
  let st = ret[0].st;
  let v = ret[0].v;
  for (const o of ret.slice(1)) {
    st = mergeStates(st, o.st);
    v = union(v, o.v);
  }
  return { st, v, thr };
}
// every taint label reachable from a value (through objects, arrays, maps, promises)
function deepTaint(st, v, seen = new Set(), skip = null, path = "", out = []) {
  if (seen.has(v)) return out;
  seen.add(v);
  for (const t of taintOf(v)) out.push({ t, path });
  for (const a of v.atoms) {
    if (a.k === "bound" && a.thisv) deepTaint(st, a.thisv, seen, skip, path, out);
    if (a.k !== "obj") continue;
    const r = st.rec(a);
    if (!r || seen.has(r)) continue;
    seen.add(r);
    if (skip && skip(a, r)) continue;
    if (r.props) for (const [k, w] of r.props) deepTaint(st, w, seen, skip, path + "." + k, out);
    if (r.abs) for (const e of r.abs) {
      deepTaint(st, e.v, seen, skip, path + ".[" + e.key + "]", out);
      if (e.atom) for (const t of taintOfAtom(e.atom)) out.push({ t, path: path + ".[key]" });
    }
    if (r.elems) r.elems.forEach((e, i) => deepTaint(st, e.v, seen, skip, path + "[" + i + "]", out));
    if (r.sum) deepTaint(st, r.sum, seen, skip, path + "[*]", out);
    if (r.entries) for (const e of r.entries.values()) if (e.v) deepTaint(st, e.v, seen, skip, path + "<>", out);
    if (r.spreads) for (const s of r.spreads) if (s && s.atoms) deepTaint(st, s, seen, skip, path + "...", out);
    if (r.t === "promise" && r.v) deepTaint(st, r.v, seen, skip, path, out);
  }
  return out;
}
const isProcCall = (info, name) => info.callee.extObj && info.name === name && /SpanProcessor/.test(info.label || "");
const where = (I, info) => ({ loc: info.ast ? I.p.loc(info.ast) : "?", path: I.stack.slice(-8) });
const prop = (st, v, name) => {
  const a = single(v);
  const r = a && st.rec(a);
  return r && r.props ? r.props.get(name) : undefined;
};
// core media upload and media objects, modelled as external: upload is an asynchronous operation that may fail,
// a LangfuseMedia is opaque and its tag is an unknown string or null
function stubUpload(extra) {
  return (node, info) => {
    if (!/packages\/core\/src\/media/i.test(node.getSourceFile().fileName)) return null;
    const n = L.fnNameOf(node);
    if (n === "uploadMedia") {
      if (!info) return UNDEF;
      const I = info.interp;
      if (extra) extra(info);
      const rec = I.promRec("ext", { token: `upload@${info.frame.id}:${info.site}`, mayReject: true, label: "uploadMedia", upload: true });
      rec.origin = info.ast;
      return [{ k: "ret", v: I.alloc(info.st, `upload:${info.frame.id}:${info.site}`, rec), st: info.st }];
    }
    if (L.clsName(node) === "LangfuseMedia") {
      if (!info) return UNDEF;
      const I = info.interp;
      if (I.p.checker.getTypeAtLocation(node) && (node.modifiers || []).some((m) => m.kind === L.ts.SyntaxKind.AsyncKeyword)) {
        const id = info.thisV && single(info.thisV) ? single(info.thisV).key : "?";
        const rec = I.promRec("ext", { token: `media.${n}(${id})`, mayReject: false, label: "media." + n, okVal: S(`media.${n}(${id})`, { label: "media." + n, ty: { kind: "string", nullable: true } }) });
        return [{ k: "ret", v: I.alloc(info.st, `media:${info.frame.id}:${info.site}`, rec), st: info.st }];
      }
    }
    return null;
  };
}
const mediaNew = (onMedia) => (info) => {
  if (info.callee.k === "cls" && info.callee.node.name && info.callee.node.name.text === "LangfuseMedia") {
    if (onMedia) onMedia(info);
    return S(`media@${info.frame.id}:${info.site}`, { label: "media", ty: { kind: "object", nullable: false, cls: info.callee.node }, media: true });
  }
  return null;
};
// bound the number of media items found in one attribute: a regular-expression match yields none or `n` matches
function boundMatch(info, n = 2) {
  if (info.callee.k !== "bi" || info.callee.name !== "String#match") return null;
  const I = info.interp;
  const s2 = info.st.clone();
  const items = [];
  for (let i = 0; i < n; i++) items.push(S(`match${i}(${info.thisV.key})`.slice(0, 200), { label: "match" + i, ty: { kind: "string", nullable: false }, taint: taintOf(info.thisV) }));
  return [
    { k: "ret", v: V.NULL, st: s2 },
    { k: "ret", v: L.mkArr(I, info.st, `match:${info.frame.id}:${info.site}`, items), st: info.st },
  ];
}
function mkProcessor(p, R, hooks, paramProps = {}, opts = {}) {
  const cls = L.findClass(p, "otel", "LangfuseSpanProcessor");
  const I = R.use(L.mkInterp(p, { stub: stubUpload(hooks.onUpload), onNew: mediaNew(hooks.onMedia), ...hooks }));
  const st = new L.State();
  const params = L.mkObj(I, st, "params", paramProps, { open: opts.open !== false, label: "params" });
  const outs = L.newInstance(I, st, cls, [params]);
  R.entry("new LangfuseSpanProcessor(params)");
  const j = joinOuts(outs);
  if (!j.st) throw new L.AnchorError("LangfuseSpanProcessor cannot be constructed");
  return { I, st: j.st, proc: j.v, thr: j.thr, cls };
}
// abstract ended span whose attributes are the given exact keys plus prefix+unknown keys
function mkSpan(I, st, id, exact, flat = [], more = {}) {
  const at = L.mkObj(I, st, id + ".attrs", exact, more.openAttrs ? { open: true, label: id + ".attributes" } : {});
  if (flat.length) {
    const r = st.rec(at.atoms[0]);
    st.setRec(at.atoms[0], {
      ...r,
      abs: flat.map(({ prefix, v, k }) => {
        const a = strVal([prefix, k || L.symStr("key")]).atoms[0];
        return { key: a.key, atom: a, v };
      }),
    });
  }
  return L.mkObj(I, st, id, { attributes: at, ...(more.props || {}) }, { open: true, label: id });
}
// every armed timer fires once
function fireTimers(I, st, tag = "t") {
  const tm = V.objAtom("$timers");
  const r = st.rec(tm);
  if (!r || !r.elems) return [st];
  st.setRec(tm, { ...r, elems: [], sum: null });
  let sts = [st];
  r.elems.forEach((e, i) => {
    sts = sts.flatMap((s) => (e.m ? [s.clone()] : []).concat(I.call(s, e.v, UNDEF, [], null, L.root, `timer${tag}${i}`, null).map((o) => o.st)));
  });
  return sts;
}
// run an external history: steps are functions (st) => outcomes
function history(I, st, steps) {
  let sts = [st];
  for (const f of steps) sts = I.reduceStates(sts.flatMap((s) => f(s).map((o) => o.st || o)), 6);
  return sts;
}
// a constant JavaScript value as an abstract value, and back ("<...>" where a part is not known)
const konst = (I, st, id, x) => {
  if (x === null || typeof x !== "object") return C(x);
  if (x.$v) return x.$v;
  if (Array.isArray(x)) return L.mkArr(I, st, id, x.map((y, i) => konst(I, st, id + "." + i, y)));
  return L.mkObj(I, st, id, Object.fromEntries(Object.entries(x).map(([k, y]) => [k, konst(I, st, id + "." + k, y)])));
};
const readConst = (st, v, d = 0) => {
  if (!v) return undefined;
  if (isConst(v)) return constOf(v);
  const a = single(v);
  const r = a && st.rec(a);
  if (!r || d > 12) return `<${L.labelsOf(v)}>`;
  if (r.t === "arr" && r.elems && !r.sum && !r.elems.some((e) => e.m)) return r.elems.map((e) => readConst(st, e.v, d + 1));
  if (r.t === "obj" && !r.open && !(r.abs && r.abs.length) && !(r.spreads && r.spreads.length)) return Object.fromEntries([...r.props].map(([k, w]) => [k, readConst(st, w, d + 1)]));
  return `<${L.labelsOf(v)}>`;
};
// text of a constant that does not depend on the order of keys; absent and undefined entries are the same
const canon = (x) => JSON.stringify(x, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.keys(v).sort().map((n) => [n, v[n]])) : v));
module.exports = {
  fireTimers,
  history,
  mediaNew,
  L, V, joinOuts, deepTaint, isProcCall, where, prop, stubUpload, boundMatch, mkProcessor, mkSpan, mergeStates, konst, readConst, canon };
