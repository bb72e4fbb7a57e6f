"use strict";
const { L, V, prop, where } = require("./_common.js");
const { KEYS, mkPropagation, expected, same, show, mkCtx, EMPTY, ctxOf, bagOf } = require("./_propagation.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const FULL = {
  userId: " U/1 ", sessionId: "S=é;x", version: "V1 beta", traceName: " T, n ", environment: "prod", tags: [" t1", "T2 "], metadata: { a: " X ", b_C: "y,Z" }, prompt: { name: " P/n", version: 7 },
};
const EXP = { experimentId: "ei", experimentName: "en", experimentMetadata: "em", experimentDatasetId: "ed", experimentItemId: "ii", experimentItemMetadata: "im", experimentItemRootObservationId: "ro" };
module.exports = {
  id: "P29",
  title: "propagated attributes reach the active span and all spans below under the right keys",
  rule: "For every attribute alone and all together, with and without an active (recording) span and with and without baggage: the context the callback runs in yields, through the reader used when spans start, exactly those attributes under their keys; a recording active span gets the same ones, any other none; with asBaggage, the baggage alone (as another process sees it) yields the same and its entries have the documented names; without, the baggage is untouched",
  assumptions: ["OpenTelemetry contexts and baggage are immutable maps", "tags contain no comma (the separator of the baggage entry)"],
  min: 100,
  run(p, R) {
    const cases = [["all", FULL], ["all+exp", { ...FULL, _internalExperiment: EXP }], ["none", {}], ["promptStr", { prompt: { name: "pn", version: "12" } }], ["promptZero", { prompt: { name: "pn", version: 0 } }], ["manyTags", { tags: [...Array(60).keys()].map((i) => "tag" + i), metadata: Object.fromEntries([...Array(30).keys()].map((i) => ["k" + i, "v" + i])) }]];
    for (const k of Object.keys(FULL)) cases.push([k, { [k]: FULL[k] }]);
    cases.push(["exp", { _internalExperiment: EXP }], ["expPart", { _internalExperiment: { ...EXP, experimentMetadata: undefined, experimentItemMetadata: undefined, experimentDatasetId: undefined } }]);
    for (const k of ["userId", "sessionId", "version", "traceName"]) cases.push([k + ":sym", { [k]: L.symStr("symv") }, true]);
    const other = [[C("other"), C("o")]];
    for (const [name, P, symb] of cases)
      for (const asBaggage of [undefined, false, true])
        for (const span of [null, "recording", "ended"]) {
          if (asBaggage === false && span !== "recording") continue;
          const tag = `${name}:${asBaggage ? "baggage" : asBaggage === false ? "noBaggage" : "local"}:${span || "nospan"}`;
          let ran = 0, full = 0;
          const ambient = mkCtx([[S("otherkey"), C("ov")]], require("./_ctx.js").mkBag(other));
          const X = mkPropagation(p, R, { span, ambient });
          const exp = expected(X.E, P);
          const ro = exp[X.E.EXPERIMENT_ITEM_ROOT_OBSERVATION_ID];
          X.onFn = (info, ctx) => {
            ran++;
            const st = info.st, W = where(X.I, info);
            const c = ctxOf(ctx);
            if (!R.ob(tag + ":context", c, "the callback does not run in a context derived from the active one", W)) return;
            let want = ro ? { ...exp, [X.E.ENVIRONMENT]: JSON.stringify("sdk-experiment") } : exp;
            let wantSpan = exp;
            for (const r of X.read(st, ctx)) {
              if (!R.ob(tag + ":read", !r.error, r.error, W)) continue;
              // an unknown string is either propagated or dropped, but consistently
              const dropped = symb && !Object.keys(r.attrs).length;
              if (dropped) (want = {}), (wantSpan = {});
              else full++;
              const d = same(r.attrs, want);
              R.ob(tag + ":attributes", !d, `a span started below does not get what was propagated: ${d}`, W);
            }
            const sa = X.spanAttrs(st);
            const ds = same(sa, span === "recording" ? wantSpan : {});
            R.ob(tag + ":active-span", !ds, `the active span does not get what was propagated: ${ds}`, W);
            R.ob(tag + ":keeps", c.ctxVals.some(([k]) => k === S("otherkey")), "values of the surrounding context are lost", W);
            const bag = bagOf(c.ctxBag);
            R.ob(tag + ":keeps-baggage", bag && bag.bagEnts.some(([k, v]) => k === C("other") && v === C("o")), "entries of the surrounding baggage are lost", W);
            if (!bag) return;
            if (!asBaggage) R.ob(tag + ":no-baggage", bag.bagEnts.length === 1, `attributes are put into baggage without asBaggage: ${bag.bagEnts.map(([k]) => L.labelsOf(k)).join(", ")}`, W);
            else {
              for (const r of X.read(st, mkCtx([], c.ctxBag))) {
                if (!R.ob(tag + ":read-remote", !r.error, r.error, W)) continue;
                const d = same(r.attrs, want);
                R.ob(tag + ":remote", !d, `another service does not get what was propagated as baggage: ${d}`, W);
              }
              const names = Object.entries(KEYS).filter(([, [e]]) => X.E[e] in wantSpan).map(([, [, n]]) => "langfuse_" + n);
              for (const k of Object.keys((wantSpan === exp && P.metadata) || {})) names.push("langfuse_metadata_" + k);
              const got = bag.bagEnts.map(([k]) => (isConst(k) ? constOf(k) : k.key)).filter((k) => k !== "other").sort();
              R.ob(tag + ":entries", got.join() === names.sort().join(), `baggage entries are ${got.join()}`, W);
            }
          };
          const outs = X.propagate(X.st, { ...P, ...(asBaggage === undefined ? {} : { asBaggage }) }, X.fn());
          for (const q of outs) {
            R.ob(tag + ":once", q.st.fact("calls:fn") === 1, "the callback does not run exactly once");
            R.ob(tag + ":result", q.k === "ret" ? q.v === S("res:fn") : q.v === S("thrown:fn"), `the caller does not get the callback's outcome but ${L.labelsOf(q.v)}`);
          }
          R.entry(tag);
          R.ob(tag + ":reached", ran > 0 && full > 0, "the callback never runs, or never with the attributes");
        }
  },
};
