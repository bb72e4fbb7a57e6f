"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkExperiment } = require("./_experiment.js");
const { S, C, UNDEF, single } = V;
module.exports = {
  id: "P20",
  title: "experiments run the task once per item, isolated, in order and within the concurrency limit",
  rule: "For 0 to 4 items (plain, from a dataset, without input), every concurrency limit and every task failing or succeeding: the task is called exactly once per item that has an input and with that item, never with more tasks pending than the limit; run() never rejects and returns one result per successful item, in item order, with that item and its own output",
  assumptions: ["startActiveObservation and propagateAttributes behave as their own properties state", "up to four items; the tasks, evaluators and requests complete in every order (histories marked any-order) or only when awaited"],
  min: 20,
  run(p, R) {
    const cases = [
      { items: [], conc: 2 },
      { items: ["plain"], taskThrows: true },
      { items: ["plain", "dataset", "noinput"], conc: 1 },
      { items: ["noinput", "plain", "plain"], conc: 2 },
      { items: ["nullinput", "plain"], conc: 2 },
      { items: ["dataset", "plain", "dataset", "plain"], conc: 2, linkFails: false },
      { items: ["plain", "plain", "plain", "plain"], conc: 3 },
      { items: ["plain", "plain", "plain"], taskThrows: true },
      { items: ["plain", "plain"], conc: 5, evals: [0] },
      { items: ["plain", "plain", "plain"], conc: 2, schedules: true },
      { items: ["plain", "plain", "plain", "plain"], conc: 2, schedules: true, taskFails: false },
      { items: ["plain", "plain", "plain"], conc: 1, schedules: true },
      { items: ["plain", "dataset"], conc: 2, schedules: true },
      { items: ["plain", "plain"], conc: 2, evals: [0], schedules: true, taskFails: false },
      { items: ["plain", "plain", "plain"], schedules: true, taskFails: false },
    ];
    for (const o of cases) {
      const tag = `${o.items.map((x) => x.slice(0, 2)).join("") || "none"}:${o.conc === undefined ? "default" : o.conc}${o.evals ? ":eval" : ""}${o.schedules ? ":any-order" : ""}`;
      const X = mkExperiment(p, R, o);
      let done = 0, allOk = 0;
      X.onTask = (info, i) => {
        const W = where(X.I, info);
        if (!R.ob(tag + ":task-item", i >= 0, "the task is called with something other than an item of the data", W)) return;
        R.ob(tag + ":task-input", o.items[i] !== "noinput", "the task is called for an item without input", W);
        R.ob(tag + ":task-once", !info.st.fact("called" + i), `the task is called twice for item ${i}`, W);
        const lim = o.conc === undefined ? 50 : o.conc;
        R.ob(tag + ":concurrency", (info.st.fact("running") || 0) < lim, `more than ${lim} tasks run at the same time`, W);
      };
      const checkEnd = (k, s, v) => {
        if (!R.ob(tag + ":never-rejects", k === "ret", `run() rejects (${L.labelsOf(v)})`)) return;
        done++;
        R.ob(tag + ":all-settled", !(s.fact("running") > 0), "run() fulfils while a task is still running");
        const want = [];
        o.items.forEach((k, i) => {
          if (k === "noinput") return;
          R.ob(tag + ":every-item", s.fact("called" + i) === 1, `the task is not called for item ${i}`);
          if (s.fact("task" + i) === "ok") want.push(i);
        });
        if (want.length === o.items.filter((k) => k !== "noinput").length) allOk++;
        const els = X.elems(s, prop(s, v, "itemResults"));
        if (!R.ob(tag + ":results", els && els.length === want.length, `run() returns ${els ? els.length : "?"} results for ${want.length} successful items`)) return;
        want.forEach((i, j) => {
          R.ob(tag + ":result-item", X.itemIdx(s, prop(s, els[j], "item")) === i, `result ${j} belongs to another item`);
          R.ob(tag + ":result-output", prop(s, els[j], "output") === S("out" + i), `result ${j} has the output ${L.labelsOf(prop(s, els[j], "output") || UNDEF)}`);
        });
      };
      if (!X.each(R, tag, checkEnd)) continue;
      R.entry("experiment.run " + tag);
      R.ob(tag + ":reached", done > 0 && allOk > 0, "run() never fulfils with all tasks successful");
    }
  },
};
