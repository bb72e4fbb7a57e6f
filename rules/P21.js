"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkExperiment } = require("./_experiment.js");
const { S, C, UNDEF, single } = V;
const str = (n) => L.symStr(n);
module.exports = {
  id: "P21",
  title: "every evaluation of an experiment is reported once, on the right trace, before run() returns",
  rule: "For items with several evaluators and run evaluators, each succeeding (one evaluation or a list) or failing: every evaluator of every item whose task succeeded is called once with that item's input, expected output, output and metadata; the evaluations of the successful ones, and only those, are in the item's result and are scored exactly once on the trace and observation of that item; run evaluators get all item results, their evaluations are returned and, if a dataset run exists, scored once on that run; the scores are flushed before run() fulfils; a failing evaluator affects no other",
  assumptions: ["startActiveObservation and score delivery behave as their own properties state", "an evaluation is scored with the fields the evaluator returned"],
  min: 20,
  run(p, R) {
    const cases = [
      { items: ["plain"], evals: [0, 1] },
      { items: ["plain"], evals: [1, 0], taskFails: false },
      { items: ["bare"], evals: [0], taskFails: false },
      { items: ["plain", "dataset"], evals: [0], conc: 1, linkFails: false },
      { items: ["plain", "plain"], evals: [1], taskFails: false, conc: 2 },
      { items: ["dataset"], runEvals: [0, 1], taskFails: false, runName: true, version: true },
      { items: ["plain"], runEvals: [0, 1] },
      { items: ["plain", "plain"], runEvals: [0], conc: 1 },
      { items: ["dataset"], evals: [0], runEvals: [1], taskFails: false },
      { items: ["plain", "dataset"], runEvals: [0], taskFails: false, conc: 1 },
      { items: ["plain", "plain"], evals: [1], conc: 2, schedules: true },
      { items: ["plain"], evals: [0, 1], schedules: true },
      { items: ["dataset"], runEvals: [0, 1], taskFails: false, schedules: true },
      { items: ["plain", "dataset"], evals: [0], runEvals: [0], conc: 2, taskFails: false, evalFails: false, schedules: true },
    ];
    for (const o of cases) {
      const tag = `${o.items.map((x) => x[0]).join("")}:${(o.evals || []).join("")}:${(o.runEvals || []).join("")}:${o.conc || "-"}${o.schedules ? ":any-order" : ""}`;
      const X = mkExperiment(p, R, o);
      let done = 0, allOk = 0;
      X.onTask = (info, i) => {
        // the span whose callback the task call lies in (lexically or through calls)
        info.st.setFact("span" + i, X.enclosing(info, /^o:span(\d+)$/));
      };
      X.onEval = (info, kind, n) => {
        const st = info.st;
        const W = where(X.I, info);
        const a = info.args[0];
        if (kind === "eval") {
          const i = X.itemOfEval(info);
          if (!R.ob(tag + ":eval-item", i >= 0 && st.fact("task" + i) === "ok", "an evaluator is called for an item whose task did not succeed", W)) return;
          R.ob(tag + ":eval-args", prop(st, a, "output") === S("out" + i) && (o.items[i] === "bare" ? prop(st, a, "expectedOutput") === UNDEF && prop(st, a, "metadata") === UNDEF : prop(st, a, "expectedOutput") === str("exp" + i) && single(prop(st, a, "metadata")) && single(prop(st, a, "metadata")).key === "o:md" + i), "an evaluator gets data of another item", W);
          R.ob(tag + ":eval-once", !st.fact(`c:eval${n}:${i}`), "an evaluator is called twice for an item", W);
        } else {
          const els = X.elems(st, prop(st, a, "itemResults"));
          const want = o.items.map((_, i) => i).filter((i) => st.fact("task" + i) === "ok");
          R.ob(tag + ":run-eval-args", els && els.length === want.length && want.every((i, j) => X.itemIdx(st, prop(st, els[j], "item")) === i), "a run evaluator does not get the results of all items", W);
          R.ob(tag + ":run-eval-once", !st.fact(`c:runEval${n}`), "a run evaluator is called twice", W);
        }
      };
      X.onScore = (info) => {
        const st = info.st;
        const W = where(X.I, info);
        const g = (k) => prop(st, info.args[0], k);
        const nm = g("name") ? L.labelsOf(g("name")) : "";
        const m = /^en:((eval|runEval)(\d+)(?::(\d+))?):(\d+)$/.exec(nm);
        if (!R.ob(tag + ":score-source", m, `a score is created for something that is no evaluation (${nm})`, W)) return;
        R.ob(tag + ":score-fields", g("value") === S(`evv:${m[1]}:${m[5]}`) && g("comment") === str(`ec:${m[1]}:${m[5]}`), "a score does not carry the evaluation's fields", W);
        R.ob(tag + ":score-once", !st.fact("scored:" + nm), "an evaluation is scored twice", W);
        R.ob(tag + ":score-settled", st.fact("r:" + m[1]) === "ok", "a failed evaluation is scored", W);
        st.setFact("scored:" + nm);
        if (m[2] === "eval") {
          const k = st.fact("span" + m[4]);
          R.ob(tag + ":score-trace", g("traceId") === str("traceId" + k) && g("observationId") === str("spanId" + k) && (g("datasetRunId") === undefined || g("datasetRunId") === UNDEF), "an item's evaluation is scored on another trace or observation", W);
        } else R.ob(tag + ":score-run", g("datasetRunId") === str("runId") && (g("traceId") === undefined || g("traceId") === UNDEF), "a run evaluation is not scored on the dataset run", W);
      };
      const checkEnd = (k, s, v) => {
        if (!R.ob(tag + ":never-rejects", k === "ret", `run() rejects (${L.labelsOf(v)})`)) return;
        done++;
        R.ob(tag + ":flushed", !(s.fact("scores") > 0) || (s.fact("flushed") === s.fact("scores") && s.fact("flushDone") === "ok"), "run() fulfils before all scores are flushed");
        const names = (k) => (/eval0/i.test(k) ? [0] : [0, 1]).map((j) => `en:${k}:${j}`);
        const results = X.elems(s, prop(s, v, "itemResults")) || [];
        let everything = true;
        const checkList = (v, want, what) => {
          const els = X.elems(s, v);
          const got = els ? els.map((e) => (prop(s, e, "name") ? L.labelsOf(prop(s, e, "name")) : "?")) : null;
          R.ob(tag + ":" + what, got && got.length === want.length && want.every((w) => got.includes(w)), `${what}: ${got ? got.join(",") : "?"} instead of ${want.join(",")}`);
        };
        o.items.forEach((_, i) => {
          if (s.fact("task" + i) !== "ok") return (everything = false);
          const want = [];
          for (const e of o.evals || []) {
            const k = `eval${e}:${i}`;
            R.ob(tag + ":eval-called", s.fact("c:" + k) === 1, `evaluator ${e} is not called for item ${i}`);
            if (s.fact("r:" + k) === "ok") want.push(...names(k));
            else everything = false;
          }
          for (const w of want) R.ob(tag + ":scored", s.fact("scored:" + w), "an evaluation is not scored");
          const r = results.find((x) => X.itemIdx(s, prop(s, x, "item")) === i);
          if (R.ob(tag + ":item-result", r, "the result of a successful item is missing")) {
            checkList(prop(s, r, "evaluations"), want, "item-evaluations");
            R.ob(tag + ":trace-id", prop(s, r, "traceId") === str("traceId" + s.fact("span" + i)), "the item result has another item's trace id");
          }
        });
        const hasRun = o.items.some((k, i) => k === "dataset" && s.fact("link" + i) === "ok" && s.fact("task" + i) === "ok");
        const want = [];
        for (const e of o.runEvals || []) {
          R.ob(tag + ":run-eval-called", s.fact(`c:runEval${e}`) === 1, "a run evaluator is not called");
          if (s.fact(`r:runEval${e}`) === "ok") want.push(...names("runEval" + e));
          else everything = false;
        }
        for (const w of want) R.ob(tag + ":run-scored", !!s.fact("scored:" + w) === hasRun, hasRun ? "a run evaluation is not scored" : "a run evaluation is scored without a dataset run");
        checkList(prop(s, v, "runEvaluations"), want, "run-evaluations");
        R.ob(tag + ":run-id", prop(s, v, "datasetRunId") === (hasRun ? str("runId") : UNDEF) || (!hasRun && !prop(s, v, "datasetRunId")), "the dataset run id is lost or made up");
        if (everything) allOk++;
      };
      if (!X.each(R, tag, checkEnd)) continue;
      R.entry("experiment.run " + tag);
      R.ob(tag + ":reached", done > 0 && allOk > 0, "run() never fulfils with everything successful");
    }
  },
};
