"use strict";
// OpenTelemetry contexts and baggage as abstract values: a context is the set of its (key, value) pairs plus a
// baggage, a baggage the set of its entries. Equal contents are the same abstract value.
const { L, V, prop, where } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const mkBag = (ents) => S("bag{" + ents.map(([k, v]) => k.key + "=" + v.key).sort().join(";") + "}", { label: "baggage", ty: OBJ, bagEnts: ents });
const mkCtx = (vals, bag) => S("ctx{" + vals.map(([k, v]) => k.key + "=" + v.key).sort().join(";") + (bag ? "|" + bag.key : "") + "}", { label: "context", ty: OBJ, ctxVals: vals, ctxBag: bag });
const EMPTY = mkCtx([], null);
const ctxOf = (v) => {
  const a = v && single(v);
  return a && a.ctxVals ? a : null;
};
const bagOf = (v) => {
  const a = v && single(v);
  return a && a.bagEnts ? a : null;
};
const set = (ents, k, v) => [...ents.filter(([x]) => x.key !== k.key), [k, v]];
// hooks: current() -> context value of the analysed call; span -> active span value (or UNDEF)
function ctxHooks(get, hooks = {}) {
  return {
    onCall(info) {
      if (hooks.onCall) {
        const r = hooks.onCall(info);
        if (r) return r;
      }
      const I = get().I, st = info.st, a = info.args;
      switch (info.name) {
        case "createContextKey":
          return S("ctxkey:" + (isConst(a[0]) ? constOf(a[0]) : a[0].key), { label: "key " + L.labelsOf(a[0]), ty: { kind: "symbol", nullable: false } });
        case "active":
          return get().current(st);
        case "getActiveSpan":
          return get().span || UNDEF;
        case "createBaggage":
          return mkBag([]);
        case "getBaggage": {
          const c = ctxOf(a[0]);
          if (c) return c.ctxBag || UNDEF;
          break;
        }
        case "setBaggage": {
          const c = ctxOf(a[0]);
          if (c && bagOf(a[1])) return mkCtx(c.ctxVals, a[1]);
          break;
        }
        case "deleteBaggage": {
          const c = ctxOf(a[0]);
          if (c) return mkCtx(c.ctxVals, null);
          break;
        }
      }
      const c = info.thisV && ctxOf(info.thisV);
      if (c) {
        if (info.name === "getValue") {
          const e = c.ctxVals.find(([k]) => k.key === a[0].key);
          return e ? e[1] : UNDEF;
        }
        if (info.name === "setValue") return mkCtx(set(c.ctxVals, a[0], a[1]), c.ctxBag);
        if (info.name === "deleteValue") return mkCtx(c.ctxVals.filter(([k]) => k.key !== a[0].key), c.ctxBag);
      }
      const b = info.thisV && bagOf(info.thisV);
      if (b) {
        if (info.name === "setEntry") {
          const v = prop(st, a[1], "value");
          return mkBag(set(b.bagEnts, a[0], v || UNDEF));
        }
        if (info.name === "removeEntry") return mkBag(b.bagEnts.filter(([k]) => k.key !== a[0].key));
        if (info.name === "getEntry") {
          const e = b.bagEnts.find(([k]) => k.key === a[0].key);
          return e ? L.mkObj(I, st, `ent:${b.key}:${e[0].key}`, { value: e[1] }) : UNDEF;
        }
        if (info.name === "getAllEntries") return L.mkArr(I, st, "ents:" + b.key, b.bagEnts.map(([k, v], i) => L.mkArr(I, st, `ent2:${b.key}:${i}`, [k, L.mkObj(I, st, `ent:${b.key}:${k.key}`, { value: v })])));
      }
      return null;
    },
  };
}
module.exports = { mkBag, mkCtx, EMPTY, ctxOf, bagOf, ctxHooks };
