"use strict";
const { L, V, where, prop, konst, readConst, canon } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const FN = { kind: "function", nullable: false };
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
const settle = (I, outs) => outs.flatMap((o) => (o.k === "ret" ? I.awaitVal(o.st, o.v, null, L.root) : [o]));
const CTX = { data: [{ input: "ctx" }], datasetVersion: "v-ctx", metadata: { a: "ctx", c: "ctx" } };
const CALL = { data: [{ input: "call" }], datasetVersion: "v-call", metadata: { a: "call", b: "call" } };
const subsets = (o) => Object.keys(o).reduce((a, k) => a.concat(a.map((s) => [...s, k])), [[]]).map((ks) => Object.fromEntries(ks.map((k) => [k, o[k]])));
module.exports = {
  id: "P58",
  title: "experiment runner contexts, adapters and regression errors pass on what they were given",
  rule: "On constants: runExperiment runs the client's experiment once with the call's parameters over the context's (metadata merged), every other parameter unchanged, and settles as that run does; without data it rejects and runs nothing; an adapted AutoEvals evaluator is called once with input, output and expected output over its parameters and its name, score (0 if none) and metadata are returned, its failure passed on; a RegressionError carries the result, metric, value and threshold and says so unless a message is given",
  assumptions: ["the listed combinations of options"],
  min: 100,
  run(p, R) {
    // ---- RunnerContext
    const rc = L.findClass(p, "client", "RunnerContext");
    for (const a of subsets(CTX))
      for (const b of subsets(CALL))
        for (const fails of [false, true]) {
          const tag = `context {${Object.keys(a)}}, call {${Object.keys(b)}}${fails ? ", run fails" : ""}`;
          let I;
          const calls = [];
          const result = S("runResult", { label: "runResult", ty: OBJ }), err = S("runError", { label: "runError", ty: OBJ });
          I = R.use(
            L.mkInterp(p, {
              debugEnabled: false,
              opts: { K: 16 },
              onCall(info) {
                if (info.callee.id !== "exp.run") return null;
                calls.push({ st: info.st.clone(), a: info.args, w: where(I, info) });
                return I.mkPromise(info.st, "run", fails ? "rejected" : "resolved", { v: fails ? err : result });
              },
            }),
          );
          const st = new L.State();
          const client = L.mkObj(I, st, "client", { experiment: L.mkObj(I, st, "exp", { run: S("exp.run", { label: "experiment.run", ty: FN }) }) });
          const task = S("task", { label: "task", ty: FN });
          let n = 0;
          for (const c of L.newInstance(I, st, rc, [konst(I, st, "copts", { client: { $v: client }, ...a })])) {
            if (!R.ob(tag + ":construct", c.k === "ret", "the constructor throws")) continue;
            for (const o of settle(I, L.invoke(I, c.st, c.v, "runExperiment", [konst(I, c.st, "popts", { name: "n", runName: "rn", maxConcurrency: 3, task: { $v: task }, ...b })], "run"))) {
              n++;
              const data = b.data || a.data;
              if (!data) {
                R.ob(tag + ":no-data", o.k === "throw" && !calls.length, "an experiment without data is run");
                continue;
              }
              R.ob(tag + ":once", calls.length === 1, `the experiment is run ${calls.length} times`);
              R.ob(tag + ":settles", fails ? o.k === "throw" && o.v === err : o.k === "ret" && o.v === result, `the run settles with ${lab(o.v)}`);
              for (const x of calls) {
                const g = (k) => readConst(x.st, prop(x.st, x.a[0] || UNDEF, k) || UNDEF);
                R.ob(tag + ":data", canon(g("data")) === canon(data), `the experiment runs on ${canon(g("data"))}`, x.w);
                R.ob(tag + ":version", g("datasetVersion") === (b.datasetVersion || a.datasetVersion), `the dataset version is ${g("datasetVersion")}`, x.w);
                const md = a.metadata || b.metadata ? { ...a.metadata, ...b.metadata } : undefined;
                R.ob(tag + ":metadata", canon(g("metadata")) === canon(md), `the metadata is ${canon(g("metadata"))}, expected ${canon(md)}`, x.w);
                R.ob(tag + ":rest", g("name") === "n" && g("runName") === "rn" && g("maxConcurrency") === 3 && prop(x.st, x.a[0], "task") === task, "parameters of the run are lost", x.w);
              }
            }
          }
          R.ob(tag + ":reached", n > 0, "runExperiment never settles");
        }
    R.entry("RunnerContext.runExperiment for every combination of context and call options");
    // several runs of one context: each gets its own call's data and metadata, and the context keeps its own
    {
      let I;
      const task = S("task", { label: "task", ty: FN });
      I = R.use(
        L.mkInterp(p, {
          debugEnabled: false,
          opts: { K: 16 },
          onCall(info) {
            if (info.callee.id !== "exp.run") return null;
            const st = info.st, n = (st.fact("runs") || 0) + 1;
            st.setFact("runs", n);
            const g = (k) => readConst(st, prop(st, info.args[0] || UNDEF, k) || UNDEF);
            st.setFact("run" + n, JSON.stringify([canon(g("data")), canon(g("metadata")), g("datasetVersion")]));
            return I.mkPromise(st, "run" + n, "resolved", { v: C("result" + n) });
          },
        }),
      );
      const st = new L.State();
      const client = L.mkObj(I, st, "client", { experiment: L.mkObj(I, st, "exp", { run: S("exp.run", { label: "experiment.run", ty: FN }) }) });
      const CALLS = [{ metadata: { a: "one", b: "one" } }, {}, { data: [], metadata: { d: "three" } }, CALL, { metadata: {} }];
      let cur = L.newInstance(I, st, rc, [konst(I, st, "copts", { client: { $v: client }, ...CTX })]).map((c) => ({ st: c.st, c: c.v }));
      CALLS.forEach((b, i) => {
        cur = cur.flatMap((x) => {
          const arg = konst(I, x.st, "popts" + i, { name: "n" + i, task: { $v: task }, ...b });
          return settle(I, L.invoke(I, x.st, x.c, "runExperiment", [arg], "run" + i)).map((o) => {
            const tag = "context history";
            const data = b.data || CTX.data;
            const got = o.st.fact("run" + o.st.fact("runs"));
            // an empty list is the call's data; refusing to run on it is as good
            if (data.length || o.k === "ret") R.ob(`${tag}:run ${i}`, o.k === "ret" && got === JSON.stringify([canon(data), canon({ ...CTX.metadata, ...b.metadata }), b.datasetVersion || CTX.datasetVersion]), `call ${i + 1} of the context runs with ${got}`);
            for (const k of ["data", "metadata"]) if (b[k]) R.ob(`${tag}:${k} of call ${i} kept`, canon(readConst(o.st, prop(o.st, arg, k))) === canon(b[k]), `the caller's ${k} is changed`);
            R.ob(`${tag}:context kept`, canon(readConst(o.st, prop(o.st, x.c, "metadata"))) === canon(CTX.metadata), `the context's metadata becomes ${canon(readConst(o.st, prop(o.st, x.c, "metadata")))}`);
            return { st: o.st, c: x.c };
          });
        });
      });
      R.ob("context history:reached", cur.length > 0, "runExperiment never settles");
      R.entry("RunnerContext.runExperiment, five calls of one context");
    }
    // ---- AutoEvals adapter
    const SCORES = { full: [{ name: "f", score: 0.5, metadata: { why: "x" } }, { name: "f", value: 0.5, metadata: { why: "x" } }], zero: [{ name: "f", score: 0 }, { name: "f", value: 0 }], none: [{ name: "f", score: null, metadata: {} }, { name: "f", value: 0, metadata: {} }] };
    const adapt = L.findFunction(p, "client", "createEvaluatorFromAutoevals");
    for (const [pn, ps] of [["none", undefined], ["some", { model: "m", input: "shadow", expected: "shadow" }]])
      for (const [sn, [score, want]] of [...Object.entries(SCORES), ["throws", [null, null]], ["rejects", [null, null]]]) {
        const tag = `autoevals, parameters ${pn}, score ${sn}`;
        let I, aps, n = 0;
        const calls = [];
        const err = S("evalError", { label: "evalError", ty: OBJ });
        I = R.use(
          L.mkInterp(p, {
            debugEnabled: false,
            opts: { K: 16 },
            onCall(info) {
              if (info.callee.id !== "autoeval") return null;
              calls.push({ st: info.st.clone(), a: info.args, w: where(I, info) });
              if (sn === "throws") return [{ k: "throw", v: err, st: info.st }];
              return I.mkPromise(info.st, "ae", sn === "rejects" ? "rejected" : "resolved", { v: sn === "rejects" ? err : konst(I, info.st, "score", score) });
            },
          }),
        );
        const st = new L.State();
        for (const e of L.callFunction(I, st, adapt, [S("autoeval", { label: "autoeval", ty: FN }), (aps = ps ? konst(I, st, "aps", ps) : UNDEF)], "adapt")) {
          if (!R.ob(tag + ":adapted", e.k === "ret", "adapting throws")) continue;
          const arg = konst(I, e.st, "ev", { input: "in", output: "out", expectedOutput: "exp", metadata: { k: 1 } });
          for (const o of settle(I, I.call(e.st, e.v, UNDEF, [arg], null, L.root, "evaluate", null))) {
            n++;
            if (ps) R.ob(tag + ":parameters-kept", canon(readConst(o.st, aps)) === canon(ps), `the evaluator's parameters become ${canon(readConst(o.st, aps))}`);
            R.ob(tag + ":once", calls.length === 1, `the evaluator is called ${calls.length} times`);
            for (const x of calls) {
              const g = readConst(x.st, x.a[0] || UNDEF) || {};
              R.ob(tag + ":arguments", g.input === "in" && g.output === "out" && g.expected === "exp" && g.model === (ps && ps.model), `the evaluator is given ${canon(g)}`, x.w);
            }
            if (!want) R.ob(tag + ":failure", o.k === "throw" && o.v === err, "the evaluator's failure is not passed on");
            else R.ob(tag + ":result", o.k === "ret" && canon(readConst(o.st, o.v)) === canon(want), `the evaluation is ${o.k === "ret" ? canon(readConst(o.st, o.v)) : "a failure"}, expected ${canon(want)}`);
          }
        }
        R.entry(tag);
        R.ob(tag + ":reached", n > 0, "the evaluator never settles");
      }
    // ---- RegressionError
    const re = L.findClass(p, "client", "RegressionError");
    const ERRS = {
      plain: [{}, /regression/i],
      message: [{ message: "custom" }, /^custom$/],
      metric: [{ metric: "acc", value: 0.4 }, /acc.*0\.4/],
      "metric with threshold": [{ metric: "acc", value: 0.4, threshold: 0.5 }, /acc.*0\.4.*0\.5/],
      "zero value and threshold": [{ metric: "acc", value: 0, threshold: 0 }, /acc.*0.*0/],
      "metric with message": [{ metric: "acc", value: 0.4, threshold: 0.5, message: "custom" }, /^custom$/],
    };
    for (const [n, [opts, text]] of Object.entries(ERRS)) {
      const tag = "regression error, " + n;
      const I = R.use(L.mkInterp(p, { debugEnabled: false }));
      const st = new L.State();
      const result = S("result", { label: "result", ty: OBJ });
      let k = 0;
      for (const o of L.newInstance(I, st, re, [konst(I, st, "eo", { result: { $v: result }, ...opts })])) {
        if (!R.ob(tag + ":construct", o.k === "ret", "the constructor throws")) continue;
        k++;
        const g = (x) => I.getProp(o.st.clone(), o.v, x, null, L.root, { i: "g" + x })[0].v;
        R.ob(tag + ":result", g("result") === result, "the error loses the experiment's result");
        for (const x of ["metric", "value", "threshold"]) R.ob(`${tag}:${x}`, readConst(o.st, g(x)) === opts[x], `${x} of the error is ${lab(g(x))}`);
        R.ob(tag + ":name", readConst(o.st, g("name")) === "RegressionError", `the error's name is ${lab(g("name"))}`);
        const m = g("message");
        R.ob(tag + ":message", isConst(m) && text.test(constOf(m)), `the error's message is ${lab(m)}`);
      }
      R.entry(tag);
      R.ob(tag + ":reached", k > 0, "no error is made");
    }
  },
};
