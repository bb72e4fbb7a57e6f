"use strict";
const { L, V, mkProcessor, mkSpan } = require("./_common.js");
const { recordAttr } = require("./P06.js");
const { mkBag, mkCtx, EMPTY, ctxOf, bagOf, ctxHooks } = require("./_ctx.js");
const { S, C, UNDEF, isConst, constOf } = V;
module.exports = {
  id: "P07",
  title: "exactly the topmost exported span of a process is marked as app root",
  rule: "For every combination of export verdicts of parent and child, remote claim and filter failure, the child is marked as application root iff it is expected to be exported, its parent is not, and no upstream claim names its trace",
  assumptions: ["histories of up to three spans with distinct ids, parents still open when a child starts"],
  min: 12,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    L.needExport(p, "core", "getLangfuseTraceIdFromBaggage");
    const verdicts = { true: C(true), false: C(false), undefined: UNDEF, throws: null };
    const mk = (I, st, id, parent) => {
      const sc = L.mkObj(I, st, "sc." + id, { traceId: C("T"), spanId: C(id) });
      return mkSpan(I, st, "span." + id, {}, [], { props: { id: C(id), parentSpanContext: parent ? L.mkObj(I, st, "psc." + id, { traceId: C("T"), spanId: C(parent) }) : UNDEF, __sc: sc } });
    };
    for (const claim of ["none", "same", "other"])
      for (const pv of ["absent", ...Object.keys(verdicts)])
        for (const cv of Object.keys(verdicts)) {
          let I, cur, sk;
          const pr = mkProcessor(p, R, {
            stub(node, info) {
              const n = L.fnNameOf(node);
              if (n === "getPropagatedAttributesFromContext" && info) return L.mkObj(I, info.st, "propagated", {});
              if (n === "getLangfuseTraceIdFromBaggage" && info) return claim === "none" ? UNDEF : C(claim === "same" ? "T" : "T2");
              return null;
            },
            onCall(info) {
              if (info.callee.k === "sym" && info.callee.id === "filter") return cur === "throws" ? [{ k: "throw", v: S("ferr"), st: info.st }] : verdicts[cur];
              if (info.name === "spanContext") return info.st.rec(info.thisV.atoms[0]).props.get("__sc");
              recordAttr(info, sk);
              return null;
            },
          }, { shouldExportSpan: L.symFn("filter"), mask: UNDEF, mediaUploadEnabled: C(false) });
          I = pr.I;
          let sts = [pr.st];
          const start = (id, parent, v) => {
            cur = v;
            sts = sts.flatMap((st) => {
              const sp = mk(I, st, id, parent);
              sk = sp.key;
              return L.invoke(I, st, pr.proc, "onStart", [sp, L.symObj("ctx")], "start" + id).map((o) => o.st);
            });
          };
          if (pv !== "absent") start("P", null, pv);
          for (const s of sts) s.delFact("attr:" + E.IS_APP_ROOT);
          start("Q", "P", cv);
          const want = cv === "true" && pv !== "true" && claim !== "same";
          const loc = p.loc(L.method(pr.cls, "onStart", I));
          for (const s of sts) {
            const got = s.fact("attr:" + E.IS_APP_ROOT);
            R.ob(`claim=${claim},parent=${pv},child=${cv}`, want ? got === C(true).key : got === undefined, `child span is ${got === undefined ? "not marked" : "marked " + got} as app root, expected ${want ? "marked" : "not marked"}`, { loc });
          }
        }
    R.entry("onStart(parent); onStart(child) for every verdict/claim combination");
    // longer histories: every span is judged by its own verdict and that of its own open parent, whatever else is open or has ended
    const V3 = ["true", "false", "throws"];
    const hist = [];
    for (const a of V3) for (const b of V3) for (const c of V3) {
      hist.push({ tag: `chain ${a}>${b}>${c}`, steps: [["A", null, a], ["B", "A", b], ["C", "B", c]] });
      hist.push({ tag: `siblings ${a}>(${b},${c})`, steps: [["A", null, a], ["B", "A", b], ["C", "A", c]] });
      hist.push({ tag: `ended sibling ${a}>(${b} ended,${c})`, steps: [["A", null, a], ["B", "A", b], ["end", "B"], ["C", "A", c]] });
      hist.push({ tag: `two traces ${a};${b}>${c}`, steps: [["X", null, a], ["A", null, b], ["end", "X"], ["C", "A", c]] });
    }
    for (const bias of [0, 1e6])
      for (const h of hist) {
        if (bias && !/^chain/.test(h.tag)) continue;
        let I, cur, sk;
        const pr = mkProcessor(p, R, {
          debugEnabled: false,
          opts: { sizeBias: bias },
          stub(node, info) {
            const n = L.fnNameOf(node);
            if (n === "getPropagatedAttributesFromContext" && info) return L.mkObj(I, info.st, "propagated", {});
            if (n === "getLangfuseTraceIdFromBaggage" && info) return UNDEF;
            return null;
          },
          onCall(info) {
            if (info.callee.k === "sym" && info.callee.id === "filter") return cur === "throws" ? [{ k: "throw", v: S("ferr"), st: info.st }] : verdicts[cur];
            if (info.name === "spanContext") return info.st.rec(info.thisV.atoms[0]).props.get("__sc");
            if (sk) recordAttr(info, sk);
            return null;
          },
        }, { shouldExportSpan: L.symFn("filter"), mask: UNDEF, mediaUploadEnabled: C(false) });
        I = pr.I;
        let sts = [pr.st];
        const verdict = {}, spans = {};
        const loc = p.loc(L.method(pr.cls, "onStart", I));
        for (const [id, parent, v] of h.steps) {
          if (id === "end") {
            cur = verdict[parent];
            sk = null;
            sts = sts.flatMap((st) => L.invoke(I, st, pr.proc, "onEnd", [spans[parent]], "end" + parent).flatMap((o) => I.drain(o.st, L.root)));
            continue;
          }
          cur = verdict[id] = v;
          for (const s of sts) s.delFact("attr:" + E.IS_APP_ROOT);
          sts = sts.flatMap((st) => {
            const sp = (spans[id] = mk(I, st, id, parent));
            sk = sp.key;
            return L.invoke(I, st, pr.proc, "onStart", [sp, L.symObj("ctx")], "start" + id).map((o) => o.st);
          });
          const want = v === "true" && !(parent && verdict[parent] === "true");
          for (const s of sts) {
            const got = s.fact("attr:" + E.IS_APP_ROOT);
            R.ob(`${h.tag}:${id}${bias ? ":many-open" : ""}`, want ? got === C(true).key : got === undefined, `span ${id} is ${got === undefined ? "not " : ""}marked as app root, expected ${want ? "marked" : "not marked"}${bias ? " (with a million other open spans)" : ""}`, { loc });
          }
          R.ob(`${h.tag}:${id}:reached`, sts.length > 0, "starting a span never returns", { loc });
        }
      }
    R.entry("histories of three spans: chains, siblings, ended siblings, unrelated traces");
    // the claim: what a context is given is what a context below reports, next to everything else it carried
    const fn = (n) => L.findFunction(p, "core", n);
    const other = [C("other"), L.symStr("otherValue")], key = [S("ctxkey:mine", { label: "key mine" }), L.symObj("mine")];
    const claimOf = (id) => [C("langfuse_trace_id"), C(id)];
    const ctxs = {
      empty: EMPTY,
      "other values": mkCtx([key], null),
      "other baggage": mkCtx([key], mkBag([other])),
      "same claim": mkCtx([key], mkBag([other, claimOf("abcdef01")])),
      "other claim": mkCtx([key], mkBag([other, claimOf("99999999")])),
    };
    for (const [cn, ctx] of Object.entries(ctxs))
      for (const id of ["abcdef01", "ABCDEF01"]) {
        const tag = `claim ${id} on ${cn}`;
        const X = { current: () => ctx, span: UNDEF };
        const I = (X.I = R.use(L.mkInterp(p, { debugEnabled: false, ...ctxHooks(() => X) })));
        let n = 0;
        const before = L.callFunction(I, new L.State(), fn("getLangfuseTraceIdFromBaggage"), [ctx], "get0");
        const had = { "same claim": "abcdef01", "other claim": "99999999" }[cn];
        for (const o of before) R.ob(tag + ":before", o.k === "ret" && constOf(o.v) === had, `the claim of the context is read as ${L.labelsOf(o.v)}`);
        for (const o of L.callFunction(I, new L.State(), fn("setLangfuseTraceIdInBaggage"), [ctx, C(id)], "set")) {
          n++;
          const c = o.k === "ret" && ctxOf(o.v);
          if (!R.ob(tag + ":context", !!c, "no context is returned")) continue;
          R.ob(tag + ":values-kept", JSON.stringify(c.ctxVals.map(([k, v]) => k.key + v.key)) === JSON.stringify(ctxOf(ctx).ctxVals.map(([k, v]) => k.key + v.key)), "values of the context are lost");
          const b = c.ctxBag && bagOf(c.ctxBag), b0 = ctxOf(ctx).ctxBag && bagOf(ctxOf(ctx).ctxBag);
          R.ob(tag + ":baggage-kept", !b0 || (b && b0.bagEnts.filter(([k]) => k.key === other[0].key).every(([k, v]) => b.bagEnts.some(([x, y]) => x.key === k.key && y.key === v.key))), "baggage of the context is lost");
          for (const q of L.callFunction(I, o.st, fn("getLangfuseTraceIdFromBaggage"), [o.v], "get")) R.ob(tag + ":round-trip", q.k === "ret" && isConst(q.v) && constOf(q.v) === "abcdef01", `the claim is read back as ${L.labelsOf(q.v)}`);
        }
        R.ob(tag + ":reached", n > 0, "setting the claim never returns");
      }
    R.entry("setLangfuseTraceIdInBaggage; getLangfuseTraceIdFromBaggage on every kind of context");
  },
};
