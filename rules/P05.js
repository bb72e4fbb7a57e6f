"use strict";
const { L, V, isProcCall, where, boundMatch, mkProcessor, mkSpan } = require("./_common.js");
const { S, C } = V;
module.exports = {
  id: "P05",
  title: "span processing never disturbs the host application",
  rule: "No path of onStart/onEnd throws into the host, no promise created while processing a span is left rejected without a handler, and every started span is forwarded exactly once to the export delegate, whatever user callbacks, masking and media handling do",
  assumptions: ["OpenTelemetry span accessors and the export delegate do not throw", "the mask and the filter may throw or reject at every call"],
  min: 5,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    let I, keys;
    const hooks = {
      onUpload: (info) => info.st.count("uploads", 4),
      onCall(info) {
        const bm = boundMatch(info);
        if (bm) return bm;
        if (isProcCall(info, "onStart")) {
          info.st.count("started");
          R.ob("start:forwarded-args", info.args[0] && info.args[0].key === keys.span && info.args[1] && info.args[1].key === keys.ctx, "the delegate is not given the started span and its parent context", where(I, info));
        }
        return null;
      },
    };
    for (const media of [true, false]) {
      const pr = mkProcessor(p, R, hooks, { mask: L.symFn("mask"), shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(media) });
      I = pr.I;
      R.ob("construct", pr.thr.length === 0, "the constructor throws: " + pr.thr.map((t) => L.labelsOf(t.v)));
      const span = mkSpan(I, pr.st, "span", { [E.OBSERVATION_INPUT]: S("input"), "gen_ai.input.messages": S("msgs") });
      const ctx = L.symObj("parentContext");
      keys = { span: span.key, ctx: ctx.key };
      if (media) {
        R.entry("LangfuseSpanProcessor.onStart(span, parentContext)");
        const loc = p.loc(L.method(pr.cls, "onStart", I));
        for (const o of L.invoke(I, pr.st.clone(), pr.proc, "onStart", [span, ctx], "onStart")) {
          R.ob("start:no-throw", o.k === "ret", `onStart throws ${L.labelsOf(o.v)} into the host`, { loc });
          for (const s of I.drain(o.st, L.root)) {
            R.ob("start:forwarded-once", s.fact("started") === 1, `a started span is forwarded ${s.fact("started") || 0} times to the export delegate`, { loc });
            const u = I.unhandled(s);
            R.ob("start:no-unhandled", !u.length, u.map((x) => `promise of ${x.rec.label} may reject with ${L.labelsOf(x.rec.v)} and nobody handles it`).join("; "), { loc });
          }
        }
      }
      const loc = p.loc(L.method(pr.cls, "onEnd", I));
      R.entry(`LangfuseSpanProcessor.onEnd(span), media upload ${media ? "on" : "off"}`);
      for (const o of L.invoke(I, pr.st, pr.proc, "onEnd", [span], "onEnd")) {
        R.ob("end:no-throw", o.k === "ret", `onEnd throws ${L.labelsOf(o.v)} into the host`, { loc });
        for (const s of I.drain(o.st, L.root)) {
          const u = I.unhandled(s);
          R.ob("end:no-unhandled", !u.length, u.map((x) => `promise of ${x.rec.label || "a reaction"} (${x.rec.origin ? p.loc(x.rec.origin) : "?"}) may reject with ${L.labelsOf(x.rec.v)} and nobody handles it`).join("; "), { loc });
        }
      }
    }
  },
};
