"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkExperiment } = require("./_experiment.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const str = (n) => L.symStr(n);
const lab = (v) => (v ? L.labelsOf(v) : "missing");
module.exports = {
  id: "P50",
  title: "the span of an experiment item records the item, the output and the experiment",
  rule: "For plain and dataset items (with and without expected output and metadata) and every task outcome, the item's span receives exactly once the item's own input and output and metadata holding every metadata entry of item and experiment, the experiment's and the run's name and, for dataset items, their ids; it carries the experiment environment, the description and the item's serialised expected output; the propagated context carries the serialised experiment and item metadata; the run's url names the dataset and the run",
  assumptions: ["serializeValue, startActiveObservation and propagateAttributes behave as their own properties state", "one or two items"],
  min: 30,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const cases = [{ items: ["dataset"], runName: true }, { items: ["plain"] }, { items: ["bare"] }, { items: ["dataset", "plain"], conc: 2 }, { items: ["plain", "bare"], conc: 1 }, { items: ["dataset", "dataset"], conc: 1 }, { items: ["plain", "dataset"], conc: 2 }, { items: ["plain", "dataset"], conc: 1, item: (I, st, i) => ({ expectedOutput: i ? C(false) : C(0) }), known: true }, { items: ["plain"], cfg: { description: UNDEF, metadata: UNDEF }, none: true }];
    for (const o of cases) {
      const tag = o.items.map((x) => x[0]).join("") + (o.runName ? ":named" : "") + (o.none ? ":bare-config" : "") + (o.known ? ":falsy" : "");
      o.truthy = ["descr"];
      const X = mkExperiment(p, R, o);
      const I = X.I;
      let done = 0, ok = 0, urls = 0;
      const runNameOk = (v) => v && (o.runName ? v === str("runName") : /expName/.test(L.labelsOf(v)));
      const spanOf = (v) => {
        for (const a of v ? v.atoms : []) {
          const m = /^o:span(\d+)$/.exec(a.key) || (a.k === "sym" && /^otel(\d+)$/.exec(a.id));
          if (m) return +m[1];
        }
        return null;
      };
      const record = (st, k, kv, v) => st.setFact(`attr:${k}:${isConst(kv) ? constOf(kv) : "?"}`, v.key);
      X.onAnyCall = (info) => {
        const st = info.st;
        if (info.name === "getTraceUrl") return [{ k: "ret", v: I.alloc(st, `turl:${info.frame.id}:${info.site}`, I.promRec("resolved", { v: C(`https://host/project/pid/traces/${isConst(info.args[0]) ? constOf(info.args[0]) : "x"}`) })), st }];
        const k = spanOf(info.thisV);
        if (k === null) return null;
        const W = where(I, info);
        if (info.name === "setAttribute") record(st, k, info.args[0], info.args[1] || UNDEF);
        if (info.name === "setAttributes") {
          const r = st.rec(single(info.args[0]));
          if (R.ob(tag + ":attributes", r && r.props && !r.open, "the span's attributes are not known", W)) for (const [n, v] of r.props) record(st, k, C(n), v);
        }
        if (info.name === "update") {
          const g = (n) => prop(st, info.args[0], n);
          const inp = g("input");
          const m = /^in(\d+)$/.exec(lab(inp));
          if (!R.ob(tag + ":input", m, `the span's input is ${lab(inp)}`, W)) return info.thisV;
          const i = +m[1];
          R.ob(tag + ":once", st.fact("upd" + i) === undefined, "the item's data is recorded twice", W);
          st.setFact("upd" + i, k);
          R.ob(tag + ":one-item", st.fact("item-of" + k) === undefined, "one span records two items", W);
          st.setFact("item-of" + k, i);
          R.ob(tag + ":output", g("output") === S("out" + i), `the span's output is ${lab(g("output"))}`, W);
          const md = g("metadata");
          const mg = (n) => prop(st, md, n) || UNDEF;
          if (!R.ob(tag + ":metadata", md && single(md) && st.rec(single(md)), "the span has no metadata", W)) return info.thisV;
          R.ob(tag + ":metadata-item", o.items[i] === "bare" ? mg("m") === UNDEF : lab(mg("m")) === "mdv" + i, `the item's metadata entry is ${lab(mg("m"))}`, W);
          R.ob(tag + ":metadata-experiment", o.none ? mg("em") === UNDEF : lab(mg("em")) === "emv", `the experiment's metadata entry is ${lab(mg("em"))}`, W);
          R.ob(tag + ":metadata-name", mg("experiment_name") === str("expName"), `experiment_name is ${lab(mg("experiment_name"))}`, W);
          R.ob(tag + ":metadata-run", runNameOk(mg("experiment_run_name")), `experiment_run_name is ${lab(mg("experiment_run_name"))}`, W);
          const ds = o.items[i] === "dataset";
          R.ob(tag + ":metadata-dataset", mg("dataset_id") === (ds ? str("dsId") : UNDEF) && mg("dataset_item_id") === (ds ? str("dsItem" + i) : UNDEF), `dataset_id is ${lab(mg("dataset_id"))}, dataset_item_id is ${lab(mg("dataset_item_id"))}`, W);
        }
        return info.name === "update" ? info.thisV : UNDEF;
      };
      X.onPropagate = (info) => {
        const st = info.st, W = where(I, info);
        const e = prop(st, info.args[0], "_internalExperiment");
        if (!R.ob(tag + ":context", e, "the task does not run inside the experiment context", W)) return;
        const m = /(\d+)$/.exec(lab(prop(st, e, "experimentItemId")));
        if (!R.ob(tag + ":context-item", m, "the experiment context has no item id", W)) return;
        const i = +m[1];
        const md = lab(prop(st, e, "experimentMetadata"));
        const im = lab(prop(st, e, "experimentItemMetadata"));
        R.ob(tag + ":context-metadata", o.none || md.startsWith("ser:"), `the experiment metadata of the context is ${md}`, W);
        R.ob(tag + ":context-metadata-own", o.none || (prop(st, e, "experimentMetadata") || UNDEF).key.includes("expMd"), "the context carries other data than the experiment's metadata", W);
        R.ob(tag + ":context-item-metadata", o.items[i] === "bare" || (im.startsWith("ser:") && (prop(st, e, "experimentItemMetadata") || UNDEF).key.includes("md" + i)), `the item metadata of the context is ${im}`, W);
      };
      for (const q of X.run()) {
        if (q.k !== "ret") continue;
        done++;
        const s = q.st;
        o.items.forEach((kind, i) => {
          if (s.fact("task" + i) !== "ok") return R.ob(tag + ":no-output-of-failed", s.fact("upd" + i) === undefined, "a failed item's span records an output");
          ok++;
          const k = s.fact("upd" + i);
          if (!R.ob(tag + ":recorded", k !== undefined, "an item's input and output are never recorded on a span")) return;
          const at = (n) => s.fact(`attr:${k}:${n}`);
          R.ob(tag + ":environment", at(E.ENVIRONMENT) === C("sdk-experiment").key, `the environment of the item's span is ${at(E.ENVIRONMENT)}`);
          if (!o.none) R.ob(tag + ":description", at(E.EXPERIMENT_DESCRIPTION) === str("descr").key, `the description of the item's span is ${at(E.EXPERIMENT_DESCRIPTION)}`);
          else R.ob(tag + ":description", at(E.EXPERIMENT_DESCRIPTION) === undefined, "a description is made up");
          const ex = at(E.EXPERIMENT_ITEM_EXPECTED_OUTPUT);
          if (ex) X.sawExpected = true;
          if (o.known) R.ob(tag + ":expected-falsy", ex === C(i ? "false" : "0").key, `the expected output ${i ? "false" : "0"} is recorded as ${ex}`);
          else R.ob(tag + ":expected", kind === "bare" ? !ex : !ex || ex.includes("exp" + i), `the expected output of the item's span is ${ex}`);
        });
        const linked = o.items.some((k, i) => k === "dataset" && s.fact("link" + i) === "ok" && s.fact("task" + i) === "ok");
        const first = o.items[0] === "dataset";
        const url = prop(s, q.v, "datasetRunUrl") || UNDEF;
        o.items.forEach((kind, i) => {
          if (kind === "bare") return;
          const md = prop(s, X.items[i], "metadata");
          const r = md && single(md) && s.rec(single(md));
          R.ob(tag + ":item-kept", r && r.props && [...r.props.keys()].join() === "m" && !r.open, "the caller's item metadata is changed");
        });
        if (linked) R.ob(tag + ":run-id-linked", prop(s, q.v, "datasetRunId") === str("runId"), "the run's id is not returned although an item was linked");
        if (linked && first) {
          urls++;
          R.ob(tag + ":run-url", V.strVal([C("https://host/project/pid/datasets/"), str("dsId"), C("/runs/"), str("runId")]) === url, `the run's url is ${lab(url)}`);
          R.ob(tag + ":run-id", prop(s, q.v, "datasetRunId") === str("runId"), "the run's id is not returned");
        } else if (!linked) R.ob(tag + ":no-run", url === UNDEF && (prop(s, q.v, "datasetRunId") || UNDEF) === UNDEF, "a dataset run is reported although no item was linked");
      }
      R.entry("experiment.run " + tag);
      R.ob(tag + ":reached", done > 0 && ok > 0, "no item ever succeeds");
      if (o.items[0] === "dataset") R.ob(tag + ":url-reached", urls > 0, "the run's url is never made");
      if (o.items.some((k) => k !== "bare")) R.ob(tag + ":expected-kept", X.sawExpected, "the expected output is never recorded on the item's span");
    }
  },
};
