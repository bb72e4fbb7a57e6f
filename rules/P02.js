"use strict";
const { L, V, isProcCall, where, mkProcessor, mkSpan } = require("./_common.js");
const { S, C, UNDEF, single } = V;
module.exports = {
  id: "P02",
  title: "the export filter is decisive and every kept span is handed over exactly once",
  rule: "On every path of span end (mask failing or not, media handling failing or not, debug logging on or off): the filter's verdict false or a filter exception means no hand-over and no mask/media work; any other verdict means exactly one hand-over of that same span to the export delegate",
  assumptions: ["span attributes are serialisable (OpenTelemetry attribute values)", "the export delegate is external"],
  min: 6,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    let I, spanKey;
    const touched = (info, what) => {
      const f = info.st.fact("filter");
      R.ob("dropped-untouched:" + what, f === "keep", f === undefined ? `${what} happens before the export filter decided` : `${what} happens for a span the filter ${f === "drop" ? "rejected" : "failed on"}`, where(I, info));
    };
    const hooks = {
      opts: { stringifyThrows: false },
      onUpload: (info) => touched(info, "media upload"),
      onCall(info) {
        if (info.callee.k === "sym" && info.callee.id === "filter" && info.st.fact("starting")) return [C(true), C(false), UNDEF].map((v) => ({ k: "ret", v, st: info.st.clone() })).concat({ k: "throw", v: S("err:filter", { user: true }), st: info.st.clone() });
        if (info.callee.k === "sym" && info.callee.id === "filter") {
          const arg = info.args[0] && single(info.args[0]);
          const r = arg && info.st.rec(arg);
          R.ob("filter-argument", !!(r && r.props.get("otelSpan") && r.props.get("otelSpan").key === spanKey), "the filter is not given the ended span", where(I, info));
          R.ob("filter-once", info.st.fact("filter") === undefined, "the filter is evaluated more than once for an ended span", where(I, info));
          return [["drop", "ret", C(false)], ["threw", "throw", S("err:filter", { user: true })], ["keep", "ret", C(true)], ["keep", "ret", UNDEF], ["keep", "ret", S("truthyVerdict", { ty: { kind: "object", nullable: false } })]].map(([f, k, v]) => {
            const st = info.st.clone();
            st.setFact("filter", f);
            return { k, v, st };
          });
        }
        if (info.callee.k === "sym" && info.callee.id === "mask") touched(info, "masking");
        if (isProcCall(info, "onEnd")) {
          R.ob("hand-over:same-span", info.args[0] && info.args[0].key === spanKey, "a different object than the ended span is handed to the export delegate", where(I, info));
          touched(info, "hand-over");
          R.ob("hand-over:once", !info.st.fact("handed"), "the ended span is handed to the export delegate twice", where(I, info));
          info.st.count("handed");
        }
        return null;
      },
    };
    for (const [media, started] of [[true, false], [false, false], [true, true]]) {
      const pr = mkProcessor(p, R, hooks, { mask: L.symFn("mask"), shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(media) });
      I = pr.I;
      const span = mkSpan(I, pr.st, "span", { [E.OBSERVATION_INPUT]: S("input"), "gen_ai.input.messages": S("msgs") });
      spanKey = span.key;
      R.entry(`LangfuseSpanProcessor.onEnd(span), media upload ${media ? "on" : "off"}`);
      let before = [pr.st];
      // the verdict at the start of the span (whatever it was) has no say in what happens at its end
      if (started) {
        pr.st.setFact("starting");
        before = L.invoke(I, pr.st, pr.proc, "onStart", [span, L.symObj("ctx")], "onStart").map((o) => (o.st.delFact("starting"), o.st));
      }
      for (const o of before.flatMap((st) => L.invoke(I, st, pr.proc, "onEnd", [span], "onEnd"))) {
        for (const s of I.drain(o.st, L.root)) {
          const f = s.fact("filter");
          const n = s.fact("handed") || 0;
          R.ob("filter-consulted", f !== undefined, "a path ends a span without consulting the export filter");
          if (f === "keep") R.ob("kept-exactly-once", n === 1, `a span the filter keeps is handed to the export delegate ${n} times on some path`);
          else R.ob(`${f}-never`, n === 0, "a span the filter rejects is exported");
        }
      }
    }
  },
};
