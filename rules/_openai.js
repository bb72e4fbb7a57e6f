"use strict";
// Scenario of the OpenAI wrapper rules: an SDK object whose methods are user code with a scripted outcome, read
// through the object returned by observeOpenAI; generations are recorded, streams are consumed by a consumer that
// may stop after any chunk.
const { L, V, prop, where, konst, readConst, canon } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf, mkVal } = V;
const OBJ = { kind: "object", nullable: false };
const FN = { kind: "function", nullable: false };
// outcome: (I, st) -> outs of the SDK method
function runOpenAI(p, R, tag, { config, args, outcome, path = ["create"], hooks = {}, onStart, onUpdate, onPropagate, opts }) {
  const X = { results: [] };
  let I;
  I = X.I = R.use(
    L.mkInterp(p, {
      debugEnabled: false,
      opts: { K: 48, maxElems: 60, maxSteps: 1.5e6, ...(opts || {}) },
      stub(node, info) {
        if (!info) return null;
        const f = node.getSourceFile().fileName;
        const n = L.fnNameOf(node);
        if (/packages\/(core|tracing)\/src\//.test(f)) {
          if (n === "propagateAttributes") {
            if (onPropagate) onPropagate(info, info.args[0]);
            info.st.setFact("inProp", true);
            return I.call(info.st, info.args[1], UNDEF, [], info.ast, info.frame, info.site + "pa", null).map((o) => (o.st.delFact("inProp"), o));
          }
          if (n === "startObservation" || n === "startActiveObservation") {
            const k = (info.st.fact("gens") || 0) + 1;
            info.st.setFact("gens", k);
            if (onStart) onStart(info, info.args);
            return L.mkObj(I, info.st, "gen" + k, { update: S("gen.update:" + k, { label: "update", ty: FN }), end: S("gen.end:" + k, { label: "end", ty: FN }), updateOtelSpanAttributes: S("gen.update:" + k, { label: "update", ty: FN }) });
          }
        }
        return null;
      },
      onYield(info) {
        const a = single(info.v);
        info.st.setFact("yields", (info.st.fact("yields") || "") + (a && a.k === "obj" ? a.id : a ? a.key : "?") + ",");
      },
      onCall(info) {
        const { callee, st, args: as } = info;
        const id = callee.id || "";
        let m;
        if ((m = /^gen\.(update|end):(\d+)$/.exec(id))) {
          const g = mkVal([V.objAtom("gen" + m[2])]);
          R.ob(`${tag}:no-${m[1]}-after-end`, !st.fact("ended"), `the generation is ${m[1] === "end" ? "ended twice" : "updated after its end"}`, where(I, info));
          if (m[1] === "end") {
            st.setFact("ended", (st.fact("ended") || 0) + 1);
            return UNDEF;
          }
          const lv = as[0] && prop(st, as[0], "level");
          if (lv && lv !== UNDEF) st.setFact("level", L.labelsOf(lv));
          const sm = as[0] && prop(st, as[0], "statusMessage");
          if (sm && sm !== UNDEF) st.setFact("status", L.labelsOf(sm));
          for (const k of ["output", "model", "usageDetails", "completionStartTime"]) {
            const v = as[0] && prop(st, as[0], k);
            if (v && v !== UNDEF) st.setFact("u." + k, v.key), (X["u." + k] = X["u." + k] || new Map()).set(v.key, v);
          }
          if (onUpdate) onUpdate(info, as[0]);
          return g;
        }
        if (id === "sdkMethod") {
          st.setFact("calls", (st.fact("calls") || 0) + 1);
          R.ob(`${tag}:receiver`, info.thisV && info.thisV === X.receiver, `the method runs with ${info.thisV ? L.labelsOf(info.thisV) : "no receiver"} instead of its object`, where(I, info));
          R.ob(`${tag}:args`, !as.open && as.length === X.args.length && as.every((v, i) => v === X.args[i]), `the method gets (${as.map(L.labelsOf).join()})`, where(I, info));
          R.ob(`${tag}:generation-first`, st.fact("gens") === 1, "the method runs before its generation is started", where(I, info));
          return outcome(I, st);
        }
        if (hooks.onCall) return hooks.onCall(info);
        return null;
      },
    }),
  );
  const st = new L.State();
  const m = S("sdkMethod", { label: "method", ty: FN, user: true });
  let obj = null;
  for (let i = path.length - 1; i >= 0; i--) obj = L.mkObj(I, st, i ? "sdk." + path.slice(0, i).join(".") : "sdk", { [path[i]]: obj || m, constructor: L.mkObj(I, st, "ctor" + i, { name: C("OpenAI") }) });
  X.receiver = mkVal([V.objAtom(path.length > 1 ? "sdk." + path.slice(0, -1).join(".") : "sdk")]);
  X.args = args ? args(I, st) : [L.mkObj(I, st, "arg0", { model: L.symStr("model"), messages: S("messages", { label: "messages", ty: OBJ }) }), S("arg1", { label: "arg1", ty: OBJ })];
  const fn = L.findFunction(p, "openai", "observeOpenAI");
  const cfg = config ? config(I, st) : UNDEF;
  const finish = (o, kind) => X.results.push({ ...o, kind });
  for (const w of L.callFunction(I, st, fn, [obj, cfg], "observe")) {
    if (!R.ob(tag + ":wrap", w.k === "ret", "observeOpenAI throws")) continue;
    let cur = [w];
    for (const seg of path) cur = cur.flatMap((x) => (x.k === "ret" ? I.getProp(x.st, x.v, seg, null, L.root, { i: "rd." + seg }) : [x]));
    for (const c of cur) {
      if (!R.ob(tag + ":read", c.k === "ret", "reading the method throws")) continue;
      for (const o of I.call(c.st, c.v, UNDEF, X.args, null, L.root, "use", null)) {
        const a = o.k === "ret" && single(o.v), r = a && a.k === "obj" && o.st.rec(a);
        if (o.k === "ret" && r && r.t === "promise") {
          for (const q of I.awaitVal(o.st, o.v, null, L.root)) {
            if (q.k === "ret") consume(q, "fulfil");
            else finish(q, "reject");
          }
        } else consume(o, o.k === "ret" ? "return" : "throw");
      }
    }
  }
  function consume(o, kind) {
    const a = o.k === "ret" && single(o.v), r = a && a.k === "obj" && o.st.rec(a);
    if (!r || r.t !== "gen") return finish(o, kind);
    const saved = o.st.tmp;
    o.st.tmp = new Map();
    r.frame.args = r.args;
    for (const q of I.runIR(r.ir, r.frame, r.ir.entry, o.st, "force")) finish(q, q.k === "throw" ? "stream-error" : q.st.fact("consumer") === "stopped" ? "stream-stopped" : "stream-done");
  }
  return X;
}
// A history of calls on known values. Each call: { sdk, client, path, args, cfg, out: {res}|{chunks}|{fail}|{thrown} };
// order: "sequential", "overlapping" (all started first, results taken last to first) or "nested" (a stream's consumer
// makes the next call at its first chunk). check(call, observation, i) is applied at the end of every path.
function session(p, R, tag, { calls, order, check }) {
  let I;
  const J = (st, k) => (st.fact(k) ? JSON.parse(st.fact(k)) : undefined);
  const put = (st, k, v) => st.setFact(k, JSON.stringify(v));
  const merge = (st, k, v) => {
    const cur = J(st, k) || {};
    for (const n of Object.keys(v || {})) if (v[n] !== undefined && v[n] !== null) cur[n] = v[n];
    put(st, k, cur);
  };
  const noLimit = (v) => (v === undefined ? null : v);
  let nested = null;
  I = R.use(
    L.mkInterp(p, {
      debugEnabled: false,
      opts: { K: 32, maxElems: 80, maxSteps: 2e6, stringifyThrows: false, asyncIterThrows: false },
      stub(node, info) {
        if (!info) return null;
        if (!/packages\/(core|tracing)\/src\//.test(node.getSourceFile().fileName)) return null;
        const n = L.fnNameOf(node), st = info.st;
        if (n === "propagateAttributes") {
          const before = st.fact("prop");
          put(st, "prop", readConst(st, info.args[0]) || {});
          return I.call(st, info.args[1], UNDEF, [], info.ast, info.frame, info.site + "pa", null).map((o) => (before === undefined ? o.st.delFact("prop") : o.st.setFact("prop", before), o));
        }
        if (n === "startObservation" || n === "startActiveObservation") {
          const k = (st.fact("gens") || 0) + 1;
          st.setFact("gens", k);
          put(st, "start" + k, { name: noLimit(readConst(st, info.args[0])), attrs: readConst(st, info.args[1]) || {}, opts: readConst(st, info.args[2] || UNDEF) || {}, prop: J(st, "prop") || null });
          return L.mkObj(I, st, "gen" + k, Object.fromEntries(["update", "end", "updateOtelSpanAttributes"].map((m) => [m, S(`gen.${m === "end" ? "end" : "update"}:${k}`, { label: m, ty: FN })])));
        }
        return null;
      },
      onNew(info) {
        if (/(^|\W)Date$/.test(info.name || info.label || "") && !info.args.length) return S(`now:${info.st.fact("chunks") || 0}`, { label: `chunk ${info.st.fact("chunks") || 0}`, ty: OBJ, extIs: ["Date"] });
        return null;
      },
      onYield(info) {
        const { st } = info;
        const i = st.fact("consuming");
        put(st, "yield" + i, [...(J(st, "yield" + i) || []), noLimit(readConst(st, info.v))]);
        st.setFact("chunks", (st.fact("chunks") || 0) + 1);
        if (nested && !st.fact("nested" + i)) {
          st.setFact("nested" + i, true);
          const saved = st.tmp;
          return nested(st.clone(), i + 1).map((s) => ((s.tmp = saved), s.setFact("consuming", i), s));
        }
        return null;
      },
      onCall(info) {
        const { callee, st, args: as } = info;
        const id = callee.id || "";
        let m;
        if ((m = /^gen\.(update|end):(\d+)$/.exec(id))) {
          const k = m[2];
          if (st.fact("end" + k)) st.setFact("late" + k, true);
          if (m[1] === "end") return st.setFact("end" + k, (st.fact("end" + k) || 0) + 1), UNDEF;
          const u = readConst(st, as[0] || UNDEF);
          merge(st, "upd" + k, typeof u === "object" ? u : { unknown: String(u) });
          return mkVal([V.objAtom("gen" + k)]);
        }
        if ((m = /^sdk:(\d+):(.*)$/.exec(id))) {
          const i = st.fact("calling");
          const c = calls[i];
          st.setFact("called" + i, (st.fact("called" + i) || 0) + 1);
          put(st, "got" + i, { sdk: +m[1], path: m[2], args: as.open ? "?" : as.map((v) => noLimit(readConst(st, v))), receiver: info.thisV ? L.labelsOf(info.thisV) + (single(info.thisV) ? single(info.thisV).id : "") : null });
          const out = (v, s = "ext") => [{ k: "ret", v: I.alloc(st, "sdkp" + i, s === "ext" ? I.promRec("ext", { token: "sdkp" + i, mayReject: false, label: "sdk promise", okVal: v }) : { ...I.promRec("rejected"), v }), st }];
          const err = S("err" + i, { label: "err" + i, ty: { kind: "any", nullable: false }, userErr: true });
          if (c.out.thrown) return [{ k: "throw", v: err, st }];
          if (c.out.fail) return out(err, "rejected");
          if (!c.out.chunks) return out(konst(I, st, "res" + i, c.out.res));
          const v = konst(I, st, "stream" + i, c.out.chunks);
          const a = single(v), r = st.rec(a);
          const props = new Map(r.props);
          props.set("@@Symbol.asyncIterator", S("asyncIter", { label: "asyncIterator", ty: FN }));
          st.setRec(a, { ...r, props });
          return out(v);
        }
        return null;
      },
    }),
  );
  const st = new L.State();
  const sdks = [...new Set(calls.map((c) => c.sdk || 0))];
  const roots = {};
  for (const n of sdks) {
    const paths = [...new Set(calls.filter((c) => (c.sdk || 0) === n).map((c) => c.path.join(".")))];
    const build = (pre) => {
      const names = [...new Set(paths.filter((q) => !pre || q.startsWith(pre + ".")).map((q) => (pre ? q.slice(pre.length + 1) : q).split(".")[0]))];
      const ps = { constructor: L.mkObj(I, st, `ctor${n}:${pre}`, { name: C("OpenAI") }) };
      for (const q of names) {
        const full = pre ? pre + "." + q : q;
        ps[q] = paths.includes(full) ? S(`sdk:${n}:${full}`, { label: full, ty: FN, user: true }) : build(full);
      }
      return L.mkObj(I, st, `sdk${n}:${pre}`, ps);
    };
    roots[n] = build("");
  }
  const fn = L.findFunction(p, "openai", "observeOpenAI");
  const cfgOf = new Map(); // equal configurations are one object
  const keyOf = (c) => `${c.sdk || 0}|${canon(c.cfg || null)}`;
  let outs = [{ st, k: "ret" }];
  const wrapped = new Map();
  for (const c of calls) {
    const k = keyOf(c);
    if (wrapped.has(k)) continue;
    const cv = c.cfg ? (cfgOf.get(canon(c.cfg)) || (cfgOf.set(canon(c.cfg), konst(I, outs[0].st, "cfg" + cfgOf.size, c.cfg)), cfgOf.get(canon(c.cfg)))) : UNDEF;
    outs = L.callFunction(I, outs[0].st, fn, [roots[c.sdk || 0], cv], "observe" + wrapped.size);
    if (!R.ob(tag + ":wrap", outs.length === 1 && outs[0].k === "ret", "observeOpenAI throws")) return;
    wrapped.set(k, outs[0].v);
  }
  const argv = calls.map((c, i) => (c.args || []).map((a, j) => konst(I, outs[0].st, `arg${i}.${j}`, a)));
  const begin = (s, i) => {
    const c = calls[i];
    s.setFact("calling", i);
    s.setFact("before" + i, s.fact("gens") || 0);
    let cur = [{ k: "ret", v: wrapped.get(keyOf(c)), st: s }];
    for (const seg of c.path) cur = cur.flatMap((x) => (x.k === "ret" ? I.getProp(x.st, x.v, seg, null, L.root, { i: `rd${i}.${seg}` }) : [x]));
    return cur.flatMap((x) => (x.k === "ret" ? I.call(x.st, x.v, UNDEF, argv[i], null, L.root, "use" + i, null) : [x])).map((o) => {
      o.st.setFact("after" + i, o.st.fact("gens") || 0);
      return { st: o.st, i, k: o.k, v: o.v };
    });
  };
  const result = (s, i, kind, v) => {
    s.setFact("kind" + i, kind);
    put(s, "res" + i, noLimit(readConst(s, v)));
    return s;
  };
  const end = (o) => {
    const { st: s, i } = o;
    if (o.k !== "ret") return [result(s, i, "throw", o.v)];
    const a = single(o.v), r = a && a.k === "obj" && s.rec(a);
    const vs = r && r.t === "promise" ? I.awaitVal(s, o.v, null, L.root) : [o];
    return vs.flatMap((q) => {
      if (q.k !== "ret") return [result(q.st, i, "reject", q.v)];
      const g = single(q.v), gr = g && g.k === "obj" && q.st.rec(g);
      if (!gr || gr.t !== "gen") return [result(q.st, i, r && r.t === "promise" ? "fulfil" : "return", q.v)];
      const saved = q.st.tmp;
      q.st.tmp = new Map();
      q.st.setFact("consuming", i);
      q.st.delFact("consumer");
      q.st.setFact("first" + i, q.st.fact("chunks") || 0);
      gr.frame.args = gr.args;
      return I.runIR(gr.ir, gr.frame, gr.ir.entry, q.st, "force").map((x) => {
        x.st.tmp = saved;
        x.st.setFact("kind" + i, x.k === "throw" ? "stream-error" : x.st.fact("consumer") === "stopped" ? "stream-stopped" : "stream-done");
        x.st.delFact("consumer");
        return x.st;
      });
    });
  };
  let ends;
  const N = calls.length;
  const seq = (s, i) => (i >= N ? [s] : begin(s, i).flatMap(end).flatMap((x) => seq(x, i + 1)));
  if (order === "overlapping") {
    let cur = [{ st: outs[0].st, os: [] }];
    for (let i = 0; i < N; i++) cur = cur.flatMap((x) => begin(x.st, i).map((o) => ({ st: o.st, os: [...x.os, o] })));
    for (let i = N - 1; i >= 0; i--) cur = cur.flatMap((x) => end({ ...x.os[i], st: x.st }).map((s) => ({ st: s, os: x.os })));
    ends = cur.map((x) => x.st);
  } else if (order === "nested") {
    const from = (s, i) => (i >= N ? [s] : begin(s, i).flatMap(end));
    nested = (s, i) => (i < N ? from(s, i) : [s]);
    ends = from(outs[0].st, 0);
    nested = null;
  } else ends = seq(outs[0].st, 0);
  R.entry(tag);
  R.ob(tag + ":reached", ends.length > 0, "the calls never end");
  for (const s of ends)
    calls.forEach((c, i) => {
      const k = (s.fact("before" + i) || 0) + 1;
      const kind = s.fact("kind" + i);
      if (kind === undefined) return;
      check(c, {
        i, kind, gens: (s.fact("after" + i) || 0) - k + 1, start: J(s, "start" + k) || { attrs: {}, opts: {} }, upd: J(s, "upd" + k) || {}, ended: s.fact("end" + k) || 0, late: !!s.fact("late" + k),
        got: J(s, "got" + i) || {}, called: s.fact("called" + i) || 0, res: J(s, "res" + i), yields: J(s, "yield" + i) || [], first: s.fact("first" + i), argsAfter: argv[i].map((v) => noLimit(readConst(s, v))),
      }, `${tag}:call ${i + 1}`);
    });
}
module.exports = { runOpenAI, session };
