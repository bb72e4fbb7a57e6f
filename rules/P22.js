"use strict";
const { L, V, prop, where, deepTaint } = require("./_common.js");
const { mkExperiment } = require("./_experiment.js");
const { S, C, UNDEF, single } = V;
const str = (n) => L.symStr(n);
module.exports = {
  id: "P22",
  title: "experiment items are linked to their run and traced under the experiment's identity",
  rule: "For plain and dataset items with the link request succeeding or failing: each dataset item is linked exactly once, with its own id, the trace and observation of its own span, the run's name, description, metadata and version, and plain items never; the task runs inside the propagated experiment context of its own item (experiment id = run id if linked, else the run's own id; item id; dataset id; root observation); the result and the formatted report carry each item's own data only",
  assumptions: ["propagateAttributes behaves as its own property states"],
  min: 20,
  run(p, R) {
    const cases = [
      { items: ["dataset"], version: true, runName: true },
      { items: ["dataset", "dataset"], conc: 1 },
      { items: ["dataset", "plain"], conc: 2, version: true },
      { items: ["plain", "plain"], conc: 1 },
      { items: ["bare"], conc: 1 },
      { items: ["dataset", "dataset"], conc: 2, schedules: true, taskFails: false },
      { items: ["dataset", "plain"], conc: 2, schedules: true },
    ];
    for (const o of cases) {
      o.taint = true;
      const tag = `${o.items.map((x) => x[0]).join("")}:${o.version ? "v" : "-"}${o.runName ? "n" : "-"}${o.schedules ? ":any-order" : ""}`;
      const X = mkExperiment(p, R, o);
      let done = 0, reports = 0;
      const spanIn = (info) => X.enclosing(info, /^o:span(\d+)$/);
      const runNameOk = (v) => v && (o.runName ? v === str("runName") : /expName/.test(L.labelsOf(v)));
      X.onLink = (info) => {
        const st = info.st, W = where(X.I, info);
        const g = (k) => prop(st, info.args[0], k);
        const m = /^dsItem(\d+)$/.exec(L.labelsOf(g("datasetItemId") || UNDEF));
        if (!R.ob(tag + ":link-item", m, "something other than a dataset item is linked", W)) return;
        const k = spanIn(info);
        R.ob(tag + ":link-once", !st.fact("linked" + m[1]), "a dataset item is linked twice", W);
        R.ob(tag + ":link-span", g("traceId") === str("traceId" + k) && g("observationId") === str("spanId" + k), "the run item is linked to another trace or observation", W);
        R.ob(tag + ":link-run", runNameOk(g("runName")) && g("runDescription") === str("descr") && single(g("metadata") || UNDEF).key === "o:expMd", "the run item lacks the run's name, description or metadata", W);
        R.ob(tag + ":link-version", o.version ? g("datasetVersion") === str("ver") : g("datasetVersion") === undefined || g("datasetVersion") === UNDEF, "the dataset version is not passed on", W);
        st.setFact("lspan" + m[1], k);
      };
      X.onPropagate = (info) => {
        const st = info.st, W = where(X.I, info);
        const k = spanIn(info);
        const e = prop(st, info.args[0], "_internalExperiment");
        if (!R.ob(tag + ":context", e, "the task does not run inside the experiment context", W)) return;
        const g = (n) => prop(st, e, n);
        const root = g("experimentItemRootObservationId");
        R.ob(tag + ":context-root", root === str("spanId" + k), "the experiment context names another root observation", W);
        R.ob(tag + ":context-name", runNameOk(g("experimentName")), "the experiment context has another run name", W);
        const it = L.labelsOf(g("experimentItemId") || UNDEF);
        const m = /^(dsItem|itemIdOf:in)(\d+)$/.exec(it);
        if (!R.ob(tag + ":context-item", m && (m[1] === "dsItem") === (o.items[m[2]] === "dataset"), `the experiment context has the item id ${it}`, W)) return;
        const linked = st.fact("link" + m[2]) === "ok";
        R.ob(tag + ":context-id", g("experimentId") === str(linked ? "runId" : "expId"), "the experiment context has another experiment id", W);
        R.ob(tag + ":context-dataset", o.items[m[2]] === "dataset" ? g("experimentDatasetId") === str("dsId") : g("experimentDatasetId") === undefined || g("experimentDatasetId") === UNDEF, "the experiment context has another dataset id", W);
        return "ctx" + m[2];
      };
      X.onTask = (info, i) => {
        R.ob(tag + ":task-context", X.enclosing(info, /^c:ctx(\d+)$/) === i, "the task runs outside the experiment context of its item", where(X.I, info));
        if (o.items[i] === "dataset") R.ob(tag + ":linked-first", info.st.fact("link" + i), "the task starts before its item was linked", where(X.I, info));
      };
      const checkEnd = (k, s, v) => {
        if (!R.ob(tag + ":never-rejects", k === "ret", `run() rejects (${L.labelsOf(v)})`)) return;
        done++;
        o.items.forEach((k, i) => R.ob(tag + ":links", (s.fact("linked" + i) || 0) === (k === "dataset" ? 1 : 0), k === "dataset" ? "a dataset item is never linked" : "a plain item is linked"));
        R.ob(tag + ":run-name", runNameOk(prop(s, v, "runName")), "run() returns another run name");
        const run = o.items.some((k, i) => k === "dataset" && s.fact("link" + i) === "ok" && s.fact("task" + i) === "ok");
        R.ob(tag + ":experiment-id", prop(s, v, "experimentId") === str(run ? "runId" : "expId"), "run() returns another experiment id");
        // the report shows the data of successful items only
        const ok = o.items.map((_, i) => i).filter((i) => s.fact("task" + i) === "ok");
        if (o.schedules) return reports++;
        const s2 = s.clone();
        for (const f of L.invoke(X.I, s2, v, "format", [L.mkObj(X.I, s2, "fo", { includeItemResults: V.TRUE })], "fmt"))
          for (const r of f.k === "ret" ? X.I.awaitVal(f.st, f.v, null, L.root) : [f]) {
            if (r.k !== "ret") continue;
            reports++;
            const t = new Set(V.taintOf(r.v));
            o.items.forEach((_, i) => {
              if (!ok.includes(i)) R.ob(tag + ":report", !t.has("of" + i), "the report shows the input or expected output of an item that has no result");
              else R.ob(tag + ":report-complete", t.has("of" + i), "the report lacks the input of a successful item");
            });
          }
      };
      if (!X.each(R, tag, checkEnd)) continue;
      R.entry("experiment.run " + tag);
      R.ob(tag + ":reached", done > 0 && reports > 0, "run() never fulfils");
    }
    this.report(p, R);
  },
  // the formatted report of a run with known data
  report(p, R) {
    for (const [tag, kinds, values] of [["report:two", ["plain", "plain"], [0.25, 0.75]], ["report:three", ["plain", "dataset", "plain"], [1, 0, 0.5]], ["report:mixed", ["plain", "plain", "plain"], [0.5, "text", 1]], ["report:one", ["dataset"], [0.125]]]) {
      const nums = values.filter((x) => typeof x === "number");
      const o = {
        items: kinds, conc: 1, consts: true, taskFails: false, linkFails: false, evalFails: false, evals: [0], runEvals: [0],
        item: (I, st, i) => ({ input: C(`input-${i}.`), expectedOutput: C(`expected-${i}.`), ...(kinds[i] === "dataset" ? { id: C("dsItem" + i), datasetId: C("ds1") } : {}) }),
        output: (I, st, i) => C(`output-${i}.`),
        evalResult: (I, st, k) => /^run/.test(k) ? L.mkObj(I, st, "rr", { name: C("run-eval"), value: C(0.0625), comment: C("run-comment.") }) : L.mkObj(I, st, "er" + k, { name: C("score-name"), value: C(values[+k.split(":")[1]]), comment: C(`comment-${k.split(":")[1]}.`) }),
        cfg: { name: C("exp-name"), runName: C("exp-run"), description: C("exp-description") },
      };
      const X = mkExperiment(p, R, o);
      X.itemOfEval = (info) => +(/input-(\d)/.exec((single(prop(info.st, info.args[0], "input")) || {}).v) || [0, -1])[1];
      let n = 0;
      X.onTask = (info, i) => info.st.setFact("span" + i, X.enclosing(info, /^o:span(\d+)$/));
      X.each(R, tag, (k, s, v) => {
        if (k !== "ret") return;
        for (const all of [true, false]) {
          const s2 = s.clone();
          for (const f of L.invoke(X.I, s2, v, "format", all ? [L.mkObj(X.I, s2, "fo", { includeItemResults: V.TRUE })] : [], "fmt" + all))
            for (const r of f.k === "ret" ? X.I.awaitVal(f.st, f.v, null, L.root) : [f]) {
              if (!R.ob(tag + ":report-fulfils", r.k === "ret", "format() rejects")) continue;
              const t = single(r.v) && single(r.v).k === "const" ? String(single(r.v).v) : null;
              if (process.env.DBG) console.log(t, L.labelsOf(r.v));
              if (t === null) continue;
              n++;
              let last = -1;
              kinds.forEach((kind, i) => {
                const own = [`input-${i}.`, `expected-${i}.`, `output-${i}.`, `comment-${i}.`, typeof values[i] === "number" ? values[i].toFixed(3) : values[i], "/traces/trace-" + s.fact("span" + i), ...(kind === "dataset" ? ["/datasets/ds1/items/dsItem" + i] : [])];
                if (!all) return R.ob(tag + ":report-hidden", own.slice(0, 4).every((x) => !t.includes(x)), "the short report shows the data of items");
                const next = i + 1 < kinds.length ? t.indexOf(`input-${i + 1}.`) : t.length;
                const at = own.map((x) => t.indexOf(x, last + 1));
                const miss = own.filter((x, j) => at[j] < 0 || (j !== 0 && at[j] > next));
                R.ob(tag + ":report-item", !miss.length, `the report lacks ${miss.join(", ")} of item ${i}`);
                for (const x of own.slice(0, 4)) R.ob(tag + ":report-once", t.indexOf(x) === t.lastIndexOf(x), `the report shows ${x} more than once`);
                last = Math.max(last, ...at);
              });
              R.ob(tag + ":report-run", ["exp-name", "exp-run", "exp-description", "run-eval", "run-comment.", "0.063", "score-name"].every((x) => t.includes(x)), "the report lacks the name, run name, description or run evaluations");
              const rest = t.slice(all ? last : 0);
              R.ob(tag + ":report-average", new RegExp("score-name\\D*" + (nums.reduce((a, b) => a + b, 0) / nums.length).toFixed(3).replace(".", "\\.")).test(rest), "the average of the item evaluations is wrong");
            }
        }
      });
      R.ob(tag + ":reached", n > 0 || X.I.stats.imprecise, "the report is never produced");
      R.entry("experiment report " + tag);
    }
  },
};
