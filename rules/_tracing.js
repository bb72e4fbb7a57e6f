"use strict";
// Scenario shared by the tracing rules: the Langfuse tracer hands out recorded spans, the wrapped user function
// returns a value, returns a promise that fulfils or rejects, or throws.
const { L, V, prop, where, konst, readConst, canon } = require("./_common.js");
const { Sched } = require("../engine/sched.js");
const { S, C, UNDEF, NULL, TRUE, FALSE, single } = V;
const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"];
const CLASS_OF = (t) => "Langfuse" + t[0].toUpperCase() + t.slice(1);
function mkTracing(p, R, hooks = {}) {
  const X = { spans: 0 };
  let I;
  const mkSpan = (st) => {
    const n = (st.fact("spans") || 0) + 1;
    st.setFact("spans", n);
    return S("span" + n, { label: "span" + n, ty: { kind: "object", nullable: false } });
  };
  const spanNo = (v) => {
    const m = v && v.atoms.length === 1 && /^span(\d+)$/.exec(v.atoms[0].id || "");
    return m ? +m[1] : null;
  };
  const base = {
    opts: { K: 32, maxSteps: 4e6, ...(hooks.opts || {}) },
    debugEnabled: false,
    analyseProvider: hooks.analyseProvider,
    onSettle(i) {
      if (i.rec.userFn) i.st.setFact("settled", i.ok ? "ok" : "rejected");
      if (hooks.onSettle) hooks.onSettle(i);
    },
    stub(node, info) {
      if (!info) return null;
      const n = L.fnNameOf(node);
      if (n === "getLangfuseTracer" && !hooks.analyseProvider) return S("tracer", { label: "tracer", ty: { kind: "object", nullable: false } });
      if (n === "setLangfuseTraceIdInBaggage") {
        if (hooks.onClaim) hooks.onClaim(info);
        return S(`claim(${info.args[0].key},${info.args[1].key})`, { label: "claimCtx", ty: { kind: "object", nullable: false }, baseCtx: info.args[0], claim: info.args[1] });
      }
      return hooks.stub ? hooks.stub(node, info) : null;
    },
    onWith(info) {
      if (hooks.onWith) hooks.onWith(info);
    },
    onCall(info) {
      const st = info.st;
      if (hooks.onCall) {
        const r = hooks.onCall(info);
        if (r) return r;
      }
      const c = info.callee;
      if (c.k === "sym" && c.id === "fn") {
        st.setFact("fnCalls", (st.fact("fnCalls") || 0) + 1);
        if (hooks.onFn) hooks.onFn(info);
        const s2 = st.clone(), s3 = st.clone();
        const rec = I.promRec("ext", { token: "fnp", mayReject: true, label: "fnp", userFn: true, okVal: S("val", { ty: { kind: "any", nullable: true }, taint: ["result"] }), errVal: S("rejErr", { ty: { kind: "any", nullable: true }, userErr: true, taint: ["error"] }) });
        s2.setFact("mode", "async");
        s3.setFact("mode", "throw");
        st.setFact("mode", "sync");
        return [
          { k: "ret", v: S("res", { ty: { kind: "string", nullable: true }, taint: ["result"] }), st },
          { k: "ret", v: I.alloc(s2, "fnp", rec), st: s2 },
          { k: "throw", v: S("thrown", { ty: { kind: "any", nullable: true }, userErr: true, taint: ["error"] }), st: s3 },
        ];
      }
      if (info.name === "startSpan" && /tracer/i.test(info.label || "")) {
        const v = mkSpan(st);
        if (hooks.onStart) hooks.onStart(info, spanNo(v));
        return v;
      }
      if (info.name === "startActiveSpan") {
        const sp = mkSpan(st);
        if (hooks.onStart) hooks.onStart(info, spanNo(sp), true);
        const cb = info.args[info.args.length - 1];
        return I.call(st, cb, UNDEF, [sp], info.ast, info.frame, info.site + "w", null);
      }
      const k = spanNo(info.thisV);
      if (k) {
        if (info.name === "end") {
          st.setFact("ended" + k, (st.fact("ended" + k) || 0) + 1);
          if (hooks.onEnd) hooks.onEnd(info, k);
          return UNDEF;
        }
        if (info.name === "setAttributes") {
          if (hooks.onAttrs) hooks.onAttrs(info, k);
          return info.thisV;
        }
        if (info.name === "setAttribute") {
          if (hooks.onAttr) hooks.onAttr(info, k);
          return info.thisV;
        }
        if (info.name === "setStatus") {
          const code = prop(st, info.args[0], "code");
          st.setFact("status" + k, code && V.isConst(code) ? V.constOf(code) : /\.ERROR$/.test(L.labelsOf(code || UNDEF)) ? 2 : L.labelsOf(code || UNDEF));
          return info.thisV;
        }
        if (info.name === "spanContext") return L.mkObj(I, st, "sc" + k, { traceId: L.symStr("traceId" + k), spanId: L.symStr("spanId" + k), traceFlags: S("flags" + k, { label: "flags" + k, ty: { kind: "number", nullable: false } }) });
      }
      return null;
    },
  };
  const { onCall, onSettle, stub, opts, onWith, ...rest } = hooks;
  I = X.I = R.use(L.mkInterp(p, { ...rest, ...base }));
  X.st = new L.State();
  X.fn = S("fn", { label: "fn", ty: { kind: "function", nullable: false } });
  X.spanNo = spanNo;
  return X;
}
// named keys of an abstract attribute record
const keysOf = (st, v) => {
  const r = v && single(v) && st.rec(single(v));
  return r && r.props ? r.props : null;
};
// A history of calls of one wrapped function on known values. calls: [{args, self, how: "value"|"throw"|"resolve"|"reject"|"later", v, inner}].
// One span and one call of the user's function per call; what happened is kept in facts per span and read back with view(st, k).
// inner: the user's function calls the wrapper again (with the next entry). later: a promise that settles in any order.
function calls(p, R, tag, { api, opts = {}, list, check, hooks = {} }) {
  let I, wrapper, node;
  const n0 = list.length;
  const self = list.map((c, i) => (c.self === undefined ? UNDEF : c.self));
  const errOf = (st, i) => L.mkObj(I, st, "err" + i, { message: C("boom" + i) }, { ext: "Error" });
  const argsOf = (st, i) => (list[i].args || []).map((a, j) => konst(I, st, `arg${i}.${j}`, a));
  const invoke = (st, i) => {
    st.setFact("enter", i + 1);
    if (api === "observe") return I.call(st, wrapper, self[i], argsOf(st, i), null, L.root, "callw" + i, null);
    const o = Object.keys(opts).length ? [konst(I, st, "opts" + i, opts)] : [];
    return L.callFunction(I, st, node, [C("name" + i), X.fn, ...o], "act" + i);
  };
  const X = mkTracing(p, R, {
    ...hooks,
    onCall(info) {
      const st = info.st;
      if (hooks.onCall) {
        const r = hooks.onCall(info);
        if (r) return r;
      }
      const k = X.spanNo(info.thisV);
      if (k && info.name === "setStatus") {
        st.setFact("status" + k, "ERROR");
        const m = prop(st, info.args[0], "message");
        if (m && V.isConst(m)) st.setFact("msg" + k, String(V.constOf(m)));
        return info.thisV;
      }
      if (info.callee.k !== "sym" || info.callee.id !== "fn") return null;
      const i = st.fact("fnCalls") || 0;
      st.setFact("fnCalls", i + 1);
      const c = list[i];
      if (!R.ob(tag + ":calls", c && st.fact("spans") >= 1, "the function is called more often than the wrapper", where(info.interp, info))) return UNDEF;
      st.setFact("span" + i, st.fact("spans"));
      if (api === "observe") {
        st.setFact("args" + i, canon(info.args.map((a) => readConst(st, a))) + info.args.length);
        st.setFact("self" + i, info.thisV === self[i]);
      }
      const outs = c.inner ? invoke(st, i + 1) : [{ st }];
      return outs.map(({ k: ok, v: ov, st }) => {
        if (c.inner) record(st, i + 1, ok, ov);
        if (c.how === "throw") return { k: "throw", v: errOf(st, i), st };
        if (c.how === "reject") return { k: "ret", v: I.alloc(st, "fnp" + i, I.promRec("rejected", { v: errOf(st, i) })), st };
        if (c.how === "resolve") return { k: "ret", v: I.alloc(st, "fnp" + i, I.promRec("resolved", { v: konst(I, st, "val" + i, c.v) })), st };
        if (c.how === "later") return { k: "ret", v: I.alloc(st, "fnp" + i, I.promRec("ext", { token: "fnp" + i, label: "fnp" + i, mayReject: true, userFn: true, callNo: i, okVal: konst(I, st, "val" + i, c.v), errVal: errOf(st, i) })), st };
        return { k: "ret", v: konst(I, st, "val" + i, c.v), st };
      });
    },
    onSettle(inf) {
      if (inf.rec.userFn) inf.st.setFact("settled" + inf.rec.callNo, inf.ok ? "ok" : "rejected");
    },
    onStart(info, k) {
      const v = info.args[0];
      info.st.setFact("name" + k, V.isConst(v) ? String(V.constOf(v)) : L.labelsOf(v));
    },
    onEnd(info, k) {
      info.st.setFact("endAt" + k, info.st.fact("fnCalls") || 0);
    },
    onAttrs(info, k) {
      const ks = keysOf(info.st, info.args[0]);
      if (!R.ob(tag + ":definite", ks, "the attributes of an observation are not definite", where(info.interp, info))) return;
      for (const [key, v] of ks) if (v !== UNDEF) info.st.setFact(`at${k}:${key}`, V.isConst(v) ? String(V.constOf(v)) : `<${L.labelsOf(v)}>`);
    },
  });
  I = X.I;
  // what the caller of call i got
  const record = (st, i, ok, v) => {
    const c = list[i];
    const later = c.how === "later" ? st.fact("settled" + i) : null;
    const bad = c.how === "throw" || c.how === "reject" || later === "rejected";
    if (c.how === "later" && !later) {
      R.ob(tag + `:call${i + 1}:waits`, false, "a call's promise settles before the function's promise");
      return;
    }
    const got = v && single(v) && st.rec(single(v));
    const spans = st.fact("span" + i);
    const attrs = {};
    for (const [f, val] of st.facts || []) {
      const m = f.startsWith(`at${spans}:`) ? f.slice(`at${spans}:`.length) : null;
      if (m) attrs[m] = val;
    }
    check({
      st, i, c, bad, ok,
      msg: bad ? "boom" + i : undefined,
      gotError: bad ? ok === "throw" && got && got.props && got.props.get("message") === C("boom" + i) : false,
      got: ok === "ret" ? canon(readConst(st, v)) : undefined,
      span: spans, ended: st.fact("ended" + spans) || 0,
      marked: st.fact("status" + spans) === "ERROR" || attrs["langfuse.observation.level"] === "ERROR",
      message: st.fact("msg" + spans) || attrs["langfuse.observation.status_message"],
      attrs, name: st.fact("name" + spans), args: st.fact("args" + i), self: st.fact("self" + i),
    });
    st.setFact("told" + i);
  };
  node = L.findFunction(p, "tracing", api);
  let sts = [X.st];
  if (api === "observe") {
    const o = Object.keys(opts).length ? [konst(I, X.st, "opts", opts)] : [];
    sts = L.callFunction(I, X.st, node, [X.fn, ...o], "obs").filter((o) => o.k === "ret" && ((wrapper = o.v), true)).map((o) => o.st);
  }
  const overlap = list.some((c) => c.how === "later");
  const outer = list.map((c, i) => i).filter((i) => !(i > 0 && list[i - 1].inner));
  let ends = 0;
  const finish = (st) => {
    ends++;
    for (let i = 0; i < n0; i++) R.ob(tag + ":all", st.fact("told" + i), `call ${i + 1} never reaches its caller`);
    R.ob(tag + ":spans", st.fact("spans") === n0, `${st.fact("spans") || 0} observations are started for ${n0} calls`);
  };
  for (const s0 of sts) {
    if (overlap) {
      const watch = [];
      const acts = outer.map((i) => {
        const w = { v: null, check: (st, k, v) => record(st, i, k, v) };
        watch.push(w);
        return (st) => invoke(st, i).map((o) => {
          const a = o.v && single(o.v);
          const r = a && o.st.rec(a);
          if (o.k === "ret" && r && r.t === "promise") w.v = o.v;
          else record(o.st, i, o.k, o.v);
          return o.st;
        });
      });
      const e = new Sched(I, {}).explore(s0, { R, root: L.root, watch, acts, onEnd: finish });
      if (process.env.DBG) console.log(tag, e);
      if (e.imprecise) ends++;
    } else {
      let cur = [s0];
      for (const i of outer) {
        const next = [];
        for (const st of cur)
          for (const o of invoke(st, i)) {
            const a = o.k === "ret" && single(o.v);
            const r = a && o.st.rec(a);
            if (r && r.t === "promise" && list[i].how !== "value") for (const w of I.awaitVal(o.st, o.v, null, L.root)) record(w.st, i, w.k, w.v), next.push(w.st);
            else record(o.st, i, o.k, o.v), next.push(o.st);
          }
        cur = next;
      }
      cur.forEach(finish);
    }
  }
  R.entry(`${tag}: ${n0} calls`);
  R.ob(tag + ":reached", ends > 0, "no history of calls was followed to its end");
}
// histories of calls shared by the rules on wrappers
const HISTORIES = {
  "one-after-another": [
    { args: ["first"], how: "value", v: "one" },
    { args: [], how: "throw" },
    { args: ["third", 3], how: "resolve", v: { n: 3 } },
    { args: [], how: "reject" },
    { args: [], how: "value", v: undefined },
    { args: ["sixth"], how: "resolve", v: 0 },
  ],
  nested: [
    { args: ["outer"], how: "value", v: "o", inner: true },
    { args: ["inner"], how: "value", v: "i" },
    { args: ["again"], how: "value", v: "a" },
  ],
  "nested-failing": [
    { args: ["outer"], how: "value", v: "o", inner: true },
    { args: ["inner"], how: "throw" },
  ],
  "nested-async": [
    { args: ["outer"], how: "resolve", v: "o", inner: true },
    { args: ["middle"], how: "value", v: "m", inner: true },
    { args: ["inner"], how: "value", v: false },
  ],
  overlapping: [
    { args: ["p"], how: "later", v: "P" },
    { args: ["q"], how: "later", v: "Q" },
    { args: ["r"], how: "value", v: "R" },
  ],
};
module.exports = {
  calls,
  HISTORIES, mkTracing, TYPES, CLASS_OF, keysOf };
