"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkExperiment } = require("./_experiment.js");
const { C, UNDEF, single, isConst, constOf } = V;
const long = "L".repeat(60);
// items are constants, evaluators return constants: the report is then one known text
const cases = [
  { name: "two plain items", inputs: ["q-one", "q-two"], expected: ["e-one", "e-two"], outputs: ["o-one", "o-two"], evals: [0], values: [0.25, 0.75], comments: ["c-one", "c-two"] },
  { name: "dataset items", kinds: ["dataset", "dataset"], inputs: ["q-one", "q-two"], expected: ["e-one", "e-two"], outputs: ["o-one", "o-two"], evals: [0], values: [1, 0], comments: ["c-one", undefined], runEvals: [0] },
  { name: "text and boolean scores", inputs: ["q-one", "q-two"], expected: ["e-one", undefined], outputs: [long, "o-two"], evals: [0], values: ["good", true], comments: [undefined, "c-two"], runEvals: [1] },
  { name: "structured data, no evaluators", inputs: [{ a: 1 }], expected: [["x", 2]], outputs: [{ b: "y" }], evals: [] },
  { name: "one item scored by number, one by text", inputs: ["q-one", "q-two"], expected: ["e-one", "e-two"], outputs: ["o-one", "o-two"], evals: [0], values: [0.5, "n/a"], comments: [undefined, undefined] },
  { name: "several scores of one evaluator", inputs: ["q-one", "q-two"], expected: ["e-one", "e-two"], outputs: ["o-one", "o-two"], evals: [1], values: [0.125, 0.375], comments: ["c-one", "c-two"] },
  { name: "falsy values", inputs: ["q-one", "q-two"], expected: [0, false], outputs: ["o-one", "o-two"], evals: [0], values: [0, false], comments: ["c-one", "c-two"] },
  { name: "scores of different names", inputs: ["q-one", "q-two"], expected: ["e-one", "e-two"], outputs: ["o-one", "o-two"], evals: [0], values: [0.5, 0.25], names: ["first", "second"], comments: [undefined, undefined] },
  { name: "run named like the experiment", runName: "exp-name", inputs: ["q-one"], expected: ["e-one"], outputs: ["o-one"], evals: [0], values: [0.5], comments: [undefined] },
  { name: "dataset items, linking may fail", kinds: ["dataset"], linkFails: true, inputs: ["q-one"], expected: ["e-one"], outputs: ["o-one"], evals: [0], values: [0.5], comments: [undefined] },
];
const show = (v) => (typeof v === "string" ? (v.length > 50 ? v.slice(0, 47) + "..." : v) : JSON.stringify(v));
const num = (v) => (typeof v === "number" ? v.toFixed(3) : String(v));
module.exports = {
  id: "P51",
  title: "the formatted report of an experiment shows every item, score, average and link",
  rule: "On experiments with constant items, outputs and evaluations, format({includeItemResults: true}) holds, per item and in item order, its input, expected output, output (abbreviated when long), each of its scores with comment, its dataset item and its trace url, then the run's name and description, the number of items, each score's name and average over the numeric values, each run evaluation and the dataset run's url; without the option the items' data is left out",
  assumptions: ["ten constant experiments of one or two items"],
  min: 60,
  run(p, R) {
    for (const c of cases) {
      const n = c.inputs.length;
      let I;
      const konst = (st, id, x) => {
        if (x === undefined || x === null || typeof x !== "object") return C(x);
        if (Array.isArray(x)) return L.mkArr(I, st, id, x.map((y, i) => konst(st, id + i, y)));
        return L.mkObj(I, st, id, Object.fromEntries(Object.entries(x).map(([k, y]) => [k, konst(st, id + k, y)])));
      };
      const nm = (i, j) => (c.names ? c.names[i] : "score" + j);
      const val = (i, j) => (j === 0 ? c.values[i] : 1);
      const o = {
        items: c.kinds || c.inputs.map(() => "plain"),
        conc: 1,
        taskFails: false,
        evalFails: false,
        linkFails: !!c.linkFails,
        runName: true,
        truthy: c.inputs.map((_, i) => "traceId" + (i + 1)),
        evals: c.evals,
        runEvals: c.runEvals,
        item: (_, st, i) => ((I = _), { input: konst(st, "ci" + i, c.inputs[i]), expectedOutput: konst(st, "ce" + i, c.expected[i]) }),
        output: (_, st, i) => konst(st, "co" + i, c.outputs[i]),
        cfg: { name: C("exp-name"), runName: C(c.runName || "run-name"), description: C("exp-descr") },
        evalResult(_, st, k, j) {
          const run = k.startsWith("runEval");
          const i = run ? 0 : o.evalItem;
          return L.mkObj(_, st, `res:${k}:${i}:${j}`, run ? { name: C("run-score" + j), value: C(j ? "fine" : 0.625), comment: C("run-comment" + j) } : { name: C(nm(i, j)), value: C(val(i, j)), ...(c.comments[i] !== undefined ? { comment: C(`${c.comments[i]}-${j}`) } : {}) });
        },
      };
      const X = mkExperiment(p, R, o);
      I = X.I;
      X.itemOfEval = (info) => {
        const v = prop(info.st, info.args[0], "output");
        return (o.evalItem = c.outputs.findIndex((x) => v && isConst(v) && constOf(v) === x));
      };
      const urlOf = (id) => `https://host/project/pid/traces/${id}`;
      X.onAnyCall = (info) => {
        if (info.name === "getTraceUrl") return [{ k: "ret", v: I.alloc(info.st, `turl:${info.frame.id}:${info.site}`, I.promRec("resolved", { v: C(urlOf(isConst(info.args[0]) ? constOf(info.args[0]) : L.labelsOf(info.args[0]))) })), st: info.st }];
        return null;
      };
      let done = 0;
      for (const q of X.run()) {
        if (q.k !== "ret") continue;
        const linked = q.st.fact("link0") === "ok";
        // both forms, on their own and one after the other
        for (const [all, first] of [[true], [false], [true, false], [false, true]]) {
          let s = q.st.clone();
          if (first !== undefined)
            for (const f of L.invoke(I, s, q.v, "format", first ? [L.mkObj(I, s, "fo0", { includeItemResults: V.TRUE })] : [], "fmt0"))
              for (const r of f.k === "ret" ? I.awaitVal(f.st, f.v, null, L.root) : [f]) s = r.st;
          const args = all ? [L.mkObj(I, s, "fo", { includeItemResults: V.TRUE })] : [];
          for (const f of L.invoke(I, s, q.v, "format", args, "fmt" + all))
            for (const r of f.k === "ret" ? I.awaitVal(f.st, f.v, null, L.root) : [f]) {
              if (!R.ob(`${c.name}:formats`, r.k === "ret", "format() rejects")) continue;
              done++;
              const atom = single(r.v);
              // unknown pieces of the text (ids of traces and datasets) are shown by their label
              const text = isConst(r.v) ? String(constOf(r.v)) : atom && atom.k === "str" ? atom.parts.map((x) => (typeof x === "string" ? x : x.atoms ? (isConst(x) ? constOf(x) : L.labelsOf(x)) : x.label || x.id || "?")).join("") : null;
              if (!R.ob(`${c.name}:${all}:known`, text !== null, `the report is not a known text: ${L.labelsOf(r.v).slice(0, 100)}`)) continue;
              let pos = 0;
              const has = (what, t) => {
                const at = text.indexOf(t, pos);
                if (R.ob(`${c.name}:${all ? "full" : "short"}:${what}`, at >= 0, `${c.name}: the report lacks ${what} (${JSON.stringify(t)}) where expected: ${JSON.stringify(text.slice(pos, pos + 300))}`)) pos = at + t.length;
              };
              const lacks = (what, t) => R.ob(`${c.name}:${all ? "full" : "short"}:no-${what}`, !text.includes(t), `${c.name}: the report shows ${what} (${t})`);
              const nEv = c.evals.length ? (c.evals[0] === 0 ? 1 : 2) : 0;
              if (all)
                for (let i = 0; i < n; i++) {
                  has(`input of item ${i}`, show(c.inputs[i]));
                  has(`expected output of item ${i}`, c.expected[i] === undefined ? "null" : show(c.expected[i]));
                  has(`output of item ${i}`, show(c.outputs[i]));
                  for (let j = 0; j < nEv; j++) {
                    has(`score ${j} of item ${i}`, `${nm(i, j)}: ${num(val(i, j))}`);
                    if (c.comments[i] !== undefined) has(`comment of score ${j} of item ${i}`, `${c.comments[i]}-${j}`);
                  }
                  if (c.kinds) has(`dataset item of item ${i}`, `https://host/project/pid/datasets/dsId/items/dsItem${i}`);
                  has(`trace of item ${i}`, urlOf("traceId" + (i + 1)));
                }
              else for (let i = 0; i < n; i++) lacks(`output of item ${i}`, show(c.outputs[i]));
              const at0 = pos;
              has("experiment name", "exp-name");
              pos = at0;
              has("run name", c.runName || "run-name");
              has("description", "exp-descr");
              has("number of items", `${n} items`);
              const names = c.names || Array.from({ length: nEv }, (_, j) => "score" + j);
              for (const j of names) has(`name of score ${j}`, j);
              for (const j of names) {
                const nums = c.inputs.flatMap((_, i) => Array.from({ length: nEv }, (_, k) => [nm(i, k), val(i, k)])).filter(([k, x]) => k === j && typeof x === "number").map(([, x]) => x);
                if (nums.length) has(`average of score ${j}`, `${j}: ${(nums.reduce((a, b) => a + b, 0) / nums.length).toFixed(3)}`);
                else lacks(`average of score ${j}`, `${j}: NaN`);
              }
              if (c.runEvals)
                for (let j = 0; j < (c.runEvals[0] === 0 ? 1 : 2); j++) {
                  has(`run score ${j}`, `run-score${j}: ${j ? "fine" : "0.625"}`);
                  has(`run comment ${j}`, `run-comment${j}`);
                }
              if (c.kinds && (!c.linkFails || linked)) has("dataset run url", "https://host/project/pid/datasets/dsId/runs/runId");
            }
        }
      }
      R.entry("format() of " + c.name);
      R.ob(`${c.name}:reached`, done >= 2, "the report is never made");
    }
  },
};
