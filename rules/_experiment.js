"use strict";
// Scenario shared by the experiment rules: ExperimentManager.run() on abstract items, task and evaluators.
// startActiveObservation / propagateAttributes are decided by their own properties and modelled here by their contract.
const { L, V, prop, where } = require("./_common.js");
const { Sched } = require("../engine/sched.js");
const { S, C, UNDEF, NULL, single } = V;
const str = (n) => L.symStr(n);
// items: "plain" | "dataset" | "noinput"
function mkExperiment(p, R, o) {
  const cls = L.findClass(p, "client", "ExperimentManager");
  const X = { calls: [], o };
  const itemIdx = (st, v) => {
    const a = v && single(v);
    const m = a && a.k === "obj" && /^o:item(\d+)$/.exec(a.key);
    return m ? +m[1] : -1;
  };
  const inc = (st, f, d) => st.setFact(f, (st.fact(f) || 0) + d);
  let I;
  const pend = (st, key, extra) => {
    const rec = I.promRec("ext", { token: key, mayReject: true, label: key, userFn: true, ...extra });
    return I.alloc(st, "pend:" + key, rec);
  };
  const hooks = {
    opts: { K: o.K || 48, maxSteps: 3e6, maxGen: 20, maxElems: 120, ...(o.opts || {}) },
    debugEnabled: false,
    onSettle(i) {
      if (i.rec.taskOf !== undefined) {
        inc(i.st, "running", -1);
        i.st.setFact("task" + i.rec.taskOf, i.ok ? "ok" : "failed");
      }
      if (i.rec.fact) i.st.setFact(i.rec.fact, i.ok ? "ok" : "failed");
    },
    stub(node, info) {
      if (!info) return null;
      const n = L.fnNameOf(node);
      const f = node.getSourceFile().fileName;
      if (n === "startActiveObservation" && /packages\/tracing\//.test(f)) {
        const k = inc2(info.st, "spans");
        const sp = L.mkObj(I, info.st, "span" + k, { id: o.consts ? C("span-" + k) : str("spanId" + k), traceId: o.consts ? C("trace-" + k) : str("traceId" + k), otelSpan: L.symObj("otel" + k), type: C("span") }, { open: true, label: "span" });
        const cb = info.args.find((a) => a.atoms.some((x) => x.k === "fn" || x.k === "bound"));
        return I.call(info.st, cb, UNDEF, [sp], info.ast, info.frame, info.site + "w", null);
      }
      if (/packages\/tracing\/src\/spanWrapper/.test(f)) {
        if (X.onSpan) X.onSpan(info, n);
        return info.thisV || UNDEF;
      }
      if (n === "propagateAttributes") {
        // the callback's activation is marked, so that calls made inside it (also after an await) are recognised
        const mark = X.onPropagate ? X.onPropagate(info) : null;
        return I.call(info.st, info.args[1], UNDEF, mark ? [C(mark)] : [], info.ast, info.frame, info.site + "w", null);
      }
      if (n === "createExperimentId") return I.alloc(info.st, "expid", I.promRec("ext", { token: "expid", mayReject: false, label: "expid", okVal: str("expId") }));
      if (n === "createExperimentItemId") return I.alloc(info.st, "expitem:" + info.args[0].key, I.promRec("ext", { token: "expitem:" + info.args[0].key, mayReject: false, label: "expitem", okVal: str("itemIdOf:" + L.labelsOf(info.args[0])) }));
      if (n === "serializeValue" && o.known && V.isConst(info.args[0]) && V.constOf(info.args[0]) !== undefined) return C(typeof V.constOf(info.args[0]) === "string" ? V.constOf(info.args[0]) : JSON.stringify(V.constOf(info.args[0])));
      if (n === "serializeValue") return S("ser:" + info.args[0].key, { label: "ser:" + L.labelsOf(info.args[0]), ty: { kind: "string", nullable: true } });
      if (n === "getTraceUrl") return I.alloc(info.st, "turl:" + info.args[0].key, I.promRec("ext", { token: "turl:" + info.args[0].key, mayReject: !!o.urlFails, label: "getTraceUrl", okVal: o.consts && single(info.args[0]).k === "const" ? C("https://h/project/prj/traces/" + single(info.args[0]).v) : str("traceUrl") }));
      if (n === "isOtelRegistered") return V.TRUE;
      return null;
    },
    onCall(info) {
      const st = info.st;
      const early = X.onAnyCall && X.onAnyCall(info);
      if (early) return early;
      const id = info.callee.k === "sym" ? info.callee.id : null;
      if (id === "task") {
        const i = itemIdx(st, info.args[0]);
        X.onTask && X.onTask(info, i);
        st.setFact("called" + i, (st.fact("called" + i) || 0) + 1);
        st.setFact("task" + i, "started");
        inc(st, "running", 1);
        const v = pend(st, "task" + i, { taskOf: i, okVal: o.output ? o.output(I, st, i) : S("out" + i), mayReject: o.taskFails !== false });
        if (!o.taskThrows) return [{ k: "ret", v, st }];
        const s2 = info.st.clone();
        inc(s2, "running", -1);
        s2.setFact("task" + i, "failed");
        return [{ k: "throw", v: S("taskThrow" + i, { userErr: true, ty: { kind: "any", nullable: true } }), st: s2 }, { k: "ret", v, st }];
      }
      const ev = id && /^(eval|runEval)(\d+)$/.exec(id);
      if (ev) {
        X.onEval && X.onEval(info, ev[1], +ev[2]);
        const k = ev[1] === "eval" ? `${ev[0]}:${X.itemOfEval(info)}` : ev[0];
        st.setFact("c:" + k, (st.fact("c:" + k) || 0) + 1);
        const one = (j) => o.evalResult ? o.evalResult(I, st, k, j) : L.mkObj(I, st, `res:${k}:${j}`, { name: str(`en:${k}:${j}`), value: S(`evv:${k}:${j}`), comment: str(`ec:${k}:${j}`) });
        const okVal = +ev[2] === 0 ? one(0) : L.mkArr(I, st, "resarr:" + k, [one(0), one(1)]);
        return [{ k: "ret", v: pend(st, k, { fact: "r:" + k, okVal, mayReject: o.evalFails !== false }), st }];
      }
      if (info.name === "flush" && /score/.test(info.label || "")) {
        st.setFact("flushed", st.fact("scores") || 0);
        return [{ k: "ret", v: I.alloc(st, "flushp", I.promRec("ext", { token: "flush", mayReject: false, label: "flush", fact: "flushDone" })), st }];
      }
      if (info.name === "create" && /score/.test(info.label || "")) {
        inc(st, "scores", 1);
        X.onScore && X.onScore(info);
        return UNDEF;
      }
      return null;
    },
    onApi(info, rec) {
      const st = info.st;
      if (info.name === "create") {
        X.onLink && X.onLink(info);
        const di = prop(st, info.args[0], "datasetItemId");
        const m = di && /^dsItem(\d+)$/.exec(L.labelsOf(di));
        const i = m ? +m[1] : -1;
        st.setFact("linked" + i, (st.fact("linked" + i) || 0) + 1);
        rec.fact = "link" + i;
        rec.token = "link" + i;
        rec.mayReject = o.linkFails !== false;
        rec.okVal = L.mkObj(I, st, "linkres" + i, { datasetRunId: o.consts ? C("run-id") : str("runId"), id: str("dri" + i) });
        return [{ k: "ret", v: I.alloc(st, "link" + i, rec), st }];
      }
      return null;
    },
  };
  const inc2 = (st, f) => {
    inc(st, f, 1);
    return st.fact(f);
  };
  I = X.I = R.use(L.mkInterp(p, hooks));
  const st = new L.State();
  const nn = (k) => S(k, { label: k, ty: { kind: "string", nullable: false }, taint: o.taint && /\d$/.test(k) ? ["of" + /\d+$/.exec(k)[0]] : [] });
  const items = o.items.map((k, i) => {
    const base = { ...(k === "noinput" ? { input: UNDEF } : k === "nullinput" ? { input: NULL } : { input: nn("in" + i) }), expectedOutput: nn("exp" + i), metadata: L.mkObj(I, st, "md" + i, { m: nn("mdv" + i) }) };
    if (k === "bare") {
      delete base.expectedOutput;
      delete base.metadata;
    }
    if (k === "dataset") Object.assign(base, { id: str("dsItem" + i), datasetId: str("dsId") });
    if (o.item) Object.assign(base, o.item(I, st, i));
    const v = L.mkObj(I, st, "item" + i, base);
    if (k === "dataset") {
      I.addRefine(st, single(str("dsItem" + i)), { t: true });
      I.addRefine(st, single(str("dsId")), { t: true });
    }
    return v;
  });
  I.addRefine(st, single(str("runId")), { t: true });
  for (const k of ["ver", "runName", "expId", ...(o.truthy || [])]) I.addRefine(st, single(str(k)), { t: true });
  X.items = items;
  X.itemOfEval = (info) => {
    const v = prop(info.st, info.args[0], "input");
    const m = v && /^in(\d+)$/.exec(L.labelsOf(v));
    return m ? +m[1] : -1;
  };
  const client = L.mkObj(I, st, "client", { api: L.symObj("api", { ctorOf: "LangfuseAPIClient" }), score: L.symObj("score") }, { open: true, label: "client" });
  const cfg = { name: str("expName"), data: L.mkArr(I, st, "data", items), task: L.symFn("task", { user: false }), ...(o.conc !== undefined ? { maxConcurrency: C(o.conc) } : {}), ...(o.version ? { datasetVersion: str("ver") } : {}), ...(o.runName ? { runName: str("runName") } : {}), description: str("descr"), metadata: L.mkObj(I, st, "expMd", { em: nn("emv") }), ...(o.cfg || {}) };
  if (o.evals) cfg.evaluators = L.mkArr(I, st, "evals", o.evals.map((i) => L.symFn("eval" + i, { user: false })));
  if (o.runEvals) cfg.runEvaluators = L.mkArr(I, st, "runEvals", o.runEvals.map((i) => L.symFn("runEval" + i, { user: false })));
  X.run = () => {
    const res = [];
    for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { langfuseClient: client })])) {
      if (c.k !== "ret") continue;
      for (const r of L.invoke(I, c.st, c.v, "run", [L.mkObj(I, c.st, "cfg", cfg)], "run")) {
        if (r.k !== "ret") res.push(r);
        else res.push(...I.awaitVal(r.st, r.v, null, L.root));
      }
    }
    return res;
  };
  // the promise of run() before anything has settled
  X.start = () => {
    const res = [];
    for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { langfuseClient: client })])) {
      if (c.k !== "ret") continue;
      for (const r of L.invoke(I, c.st, c.v, "run", [L.mkObj(I, c.st, "cfg", cfg)], "run")) if (r.k === "ret") res.push(r);
    }
    return res;
  };
  // check(outcome, state, value) at the end of run(): on the laziest schedule, or for every order of completions
  X.each = (R, tag, check) => {
    if (!o.schedules) {
      for (const q of X.run()) check(q.k, q.st, q.v);
      return true;
    }
    let precise = true;
    for (const r of X.start()) {
      const e = new Sched(I, {}).explore(r.st, {
        R, root: L.root, watch: [{ v: r.v, check: (s, k, v) => { s.setFact("runDone"); check(k, s, v); } }],
        onEnd: (s) => R.ob(tag + ":settles", s.fact("runDone"), "in some order of completions run() never settles"),
      });
      if (process.env.DBG) console.log(tag, e);
      if (e.imprecise) {
        R.note(`${tag}: ${e.imprecise}`);
        precise = false;
      }
    }
    return precise;
  };
  X.elems = (s, v) => {
    const r = v && single(v) && s.rec(single(v));
    return r && r.t === "arr" && r.elems && !r.sum && !r.elems.some((e) => e.m) ? r.elems.map((e) => e.v) : null;
  };
  X.itemIdx = itemIdx;
  // search the activations (lexical and calling) around a call for an argument with the given key
  X.enclosing = (info, re) => {
    const seen = new Set();
    const find = (f) => {
      if (!f || seen.has(f)) return null;
      seen.add(f);
      for (const v of f.args || []) {
        const m = v && v.atoms && v.atoms.length === 1 && re.exec(v.atoms[0].k === "const" ? "c:" + v.atoms[0].v : v.atoms[0].key || "");
        if (m) return +m[1];
      }
      const a = find(f.parent);
      return a !== null ? a : find(f.caller);
    };
    return find(info.frame);
  };
  return X;
}
module.exports = { mkExperiment };
