"use strict";
const { L, V, isProcCall, where, boundMatch, mkProcessor, mkSpan } = require("./_common.js");
const { Sched } = require("../engine/sched.js");
const { S, C } = V;
module.exports = {
  id: "P04",
  title: "flush and shutdown wait for every pending span and upload",
  rule: "For every ended span: when forceFlush()/shutdown() reaches the export delegate's flush/shutdown, each kept span has been handed over and each media upload started for it has settled; the returned promise settles only after the delegate's does, and rejects only if the delegate's does",
  assumptions: ["laziest asynchronous schedule: pending work runs only when something waits for it, so work nobody waits for is seen as unfinished", "two ended spans, up to two media items found per attribute value"],
  min: 6,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    let I, phase;
    const pendingUploads = (st) => {
      for (const r of st.heap.values()) if (r && r.t === "promise" && r.upload && !["resolved", "rejected"].includes(r.s)) return true;
      return false;
    };
    const hooks = {
      opts: { stringifyThrows: false },
      onSettle(i) {
        if (i.rec.delegate) i.st.setFact("delegate", i.ok ? "ok" : "failed");
      },
      onUpload: (info) => info.st.count("uploads", 4),
      onCall(info) {
        const bm = boundMatch(info);
        if (bm) return bm;
        if (info.callee.k === "sym" && info.callee.id === "filter")
          return [["drop", C(false)], ["keep", C(true)]].map(([f, v]) => {
            const st = info.st.clone();
            const n = (st.fact("filter") || "") + f[0];
            st.setFact("filter", n);
            return { k: "ret", v, st };
          });
        if (isProcCall(info, "onEnd")) {
          info.st.count("handed");
          R.ob("reach:handed", true, "");
        }
        if (isProcCall(info, "forceFlush") || isProcCall(info, "shutdown")) {
          R.ob(`${phase}:delegate-reached`, info.name === phase, `${phase}() calls the delegate's ${info.name}`, where(I, info));
          const kept = (info.st.fact("filter") || "").split("").filter((c) => c === "k").length;
          const all = (info.st.fact("filter") || "").length;
          R.ob(`${phase}:spans-first`, all === 2 && (info.st.fact("handed") || 0) === kept, `${phase}() reaches the export delegate although a span that ended before it is still being processed`, where(I, info));
          R.ob(`${phase}:uploads-first`, !pendingUploads(info.st), `${phase}() reaches the export delegate although a media upload has not settled`, where(I, info));
          const rec = I.promRec("ext", { token: "delegate", mayReject: true, label: "delegate." + info.name, delegate: true });
          rec.origin = info.ast;
          return [{ k: "ret", v: I.alloc(info.st, "delegate", rec), st: info.st }];
        }
        return null;
      },
    };
    for (phase of ["forceFlush", "shutdown"]) {
      for (const media of [true, false]) {
        const pr = mkProcessor(p, R, hooks, { mask: L.symFn("mask"), shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(media) });
        I = pr.I;
        const m = L.method(pr.cls, phase, I);
        R.entry(`onEnd(span1); onEnd(span2); ${phase}() with media upload ${media ? "on" : "off"}`);
        const s1 = mkSpan(I, pr.st, "span1", media ? { [E.OBSERVATION_INPUT]: L.symStr("in1") } : {});
        const s2 = mkSpan(I, pr.st, "span2", {});
        let sts = [pr.st];
        for (const [i, sp] of [s1, s2].entries()) sts = I.reduceStates(sts.flatMap((st) => L.invoke(I, st, pr.proc, "onEnd", [sp], "onEnd" + i).map((o) => o.st)), 8);
        for (const st of sts) {
          for (const o of L.invoke(I, st, pr.proc, phase, [], phase)) {
            if (o.k !== "ret") {
              R.ob(`${phase}:no-sync-throw`, false, `${phase}() throws synchronously`, { loc: p.loc(m) });
              continue;
            }
            for (const q of I.awaitVal(o.st, o.v, null, L.root)) {
              const d = q.st.fact("delegate");
              if (q.k === "ret") R.ob(`${phase}:resolves-after-delegate`, d === "ok", `${phase}() resolves before the export delegate finished (delegate: ${d || "not waited for"})`, { loc: p.loc(m) });
              else R.ob(`${phase}:rejects-only-with-delegate`, d === "failed", `${phase}() rejects with ${L.labelsOf(q.v)} although the export delegate did not fail`, { loc: p.loc(m) });
            }
          }
        }
      }
      R.ob(`${phase}:reached`, R.obligations.some((o) => o.key === `${phase}:delegate-reached`), `${phase}() never reaches the export delegate`);
    }
    overlapping(p, R, E);
    interleaved(p, R, E);
    R.ob("reach:some-span-handed", R.obligations.some((o) => o.key === "reach:handed"), "no span is ever handed over in the scenario");
  },
};
// flushes that overlap or follow each other: each waits for everything that ended before it
function overlapping(p, R, E) {
  for (const first of ["pending", "awaited"])
    for (const phase of ["forceFlush", "shutdown"])
      for (const [second, withMedia] of [["span", 1], ["span", 2], ["nothing", 1]]) {
        const tag = `${first}-forceFlush-then-${second}-then-${phase}:media${withMedia}`;
        let I;
        const todo = (st) => {
          if ((st.fact("handed") || 0) !== (st.fact("ended") || 0)) return "a span that ended before it has not been handed over";
          for (const r of st.heap.values()) if (r && r.t === "promise" && r.upload && !["resolved", "rejected"].includes(r.s)) return "a media upload has not settled";
          return null;
        };
        const hooks = {
          opts: { stringifyThrows: false, K: 24 },
          debugEnabled: false,
          onSettle(i) {
            if (i.rec.good) i.st.setFact("delegate", i.ok ? "ok" : "failed");
            if (i.rec.delegate && !i.ok) i.st.setFact("someFailed");
          },
          onUpload: (info) => info.st.count("uploads", 4),
          onCall(info) {
            const bm = boundMatch(info);
            if (bm) return bm;
            if (info.callee.k === "sym" && info.callee.id === "filter") return C(true);
            if (isProcCall(info, "onEnd")) info.st.count("handed");
            if (isProcCall(info, "forceFlush") || isProcCall(info, "shutdown")) {
              // the delegate's work covers the call under test if everything was handed over before it
              const good = info.st.fact("last") && info.name === phase && !todo(info.st);
              info.st.count("delegates", 6);
              const rec = I.promRec("ext", { token: `delegate:${info.frame.id}:${info.site}:${info.st.fact("delegates")}`, mayReject: true, label: "delegate." + info.name, delegate: true, good });
              rec.origin = info.ast;
              return [{ k: "ret", v: I.alloc(info.st, `delegate${info.st.fact("delegates")}`, rec), st: info.st }];
            }
            return null;
          },
        };
        const pr = mkProcessor(p, R, hooks, { mask: L.symFn("mask"), shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(true) });
        I = pr.I;
        const loc = { loc: p.loc(L.method(pr.cls, phase, I)) };
        const end = (sts, n) => sts.flatMap((st) => {
          st.count("ended");
          const sp = mkSpan(I, st, "span" + n, n === withMedia ? { [E.OBSERVATION_INPUT]: L.symStr("in" + n) } : {});
          return L.invoke(I, st, pr.proc, "onEnd", [sp], "onEnd" + n).map((o) => o.st);
        });
        let sts = end([pr.st], 1);
        sts = sts.flatMap((st) => L.invoke(I, st, pr.proc, "forceFlush", [], "first").flatMap((o) => (first === "awaited" && o.k === "ret" ? I.awaitVal(o.st, o.v, null, L.root) : [o]).map((q) => q.st)));
        if (second === "span") sts = end(sts, 2);
        sts = I.reduceStates(sts, 8);
        let n = 0;
        for (const st of sts) {
          st.setFact("last");
          for (const o of L.invoke(I, st, pr.proc, phase, [], "second")) {
            if (!R.ob(tag + ":no-throw", o.k === "ret", `${phase}() throws synchronously`, loc)) continue;
            for (const q of I.awaitVal(o.st, o.v, null, L.root)) {
              n++;
              if (q.k === "ret") {
                const t = todo(q.st);
                R.ob(tag + ":complete", !t, `${phase}() after ${first === "pending" ? "a forceFlush() still running" : "an earlier forceFlush()"} resolves although ${t}`, loc);
                R.ob(tag + ":delegate", q.st.fact("delegate") === "ok", `${phase}() after ${first === "pending" ? "a forceFlush() still running" : "an earlier forceFlush()"} resolves without the delegate's ${phase} having completed for everything handed over`, loc);
              } else R.ob(tag + ":rejects-only-with-delegate", !!q.st.fact("someFailed"), `${phase}() rejects although the export delegate did not fail`, loc);
            }
          }
        }
        R.ob(tag + ":reached", n > 0, `${phase}() never settles`, loc);
      }
  R.entry("onEnd; forceFlush (running or done); onEnd or nothing; forceFlush/shutdown");
}
// every interleaving of ending spans, flushing, uploads and answers of the export delegate
function interleaved(p, R, E) {
  for (const [name, script] of Object.entries({
    "end, flush, flush": [["end", 1], ["forceFlush", 1], ["forceFlush", 2]],
    "end, flush, shutdown": [["end", 1], ["forceFlush", 1], ["shutdown", 2]],
    "end, flush, end, flush": [["end", 1], ["forceFlush", 1], ["end", 2], ["forceFlush", 2]],
    "end, end, shutdown": [["end", 1], ["end", 2], ["shutdown", 1]],
  })) {
    const tag = `any-order:${name}`;
    let I;
    const hooks = {
      opts: { stringifyThrows: false, K: 24 },
      debugEnabled: false,
      onSettle(i) {
        if (i.rec.upload && i.rec.upOf) i.st.setFact("uploaded:" + i.rec.upOf);
      },
      onCall(info) {
        if (info.callee.k === "sym" && info.callee.id === "filter") return C(true);
        if (info.name === "spanContext") {
          const k = ((V.single(info.thisV) || {}).key || "?").replace(/\D+/g, "");
          return L.mkObj(I, info.st, "sc" + k, { traceId: C("t"), spanId: C("s" + k) });
        }
        if (isProcCall(info, "onEnd")) {
          const id = V.single(info.args[0]);
          info.st.setFact("handed:" + ((id && id.key) || "?").replace(/\D+/g, ""));
        }
        if (isProcCall(info, "forceFlush") || isProcCall(info, "shutdown")) {
          info.st.count("delegates", 9);
          return [{ k: "ret", v: I.alloc(info.st, `dg${info.st.fact("delegates")}`, I.promRec("ext", { token: `dg${info.st.fact("delegates")}`, mayReject: false, label: "delegate." + info.name })), st: info.st }];
        }
        return null;
      },
      stub(node, info) {
        const n = L.fnNameOf(node);
        if (L.clsName(node) === "LangfuseMedia" && n === "getTag") return info ? [{ k: "ret", v: I.alloc(info.st, `tag:${info.frame.id}:${info.site}`, I.resolvedRec(C("@@@tag@@@"))), st: info.st }] : null;
        if (n === "base64ToBytes") return info ? S("bytes", { label: "bytes", ty: { kind: "object", nullable: false } }) : null;
        if (n !== "uploadMedia" || !info) return null;
        const o = require("./_common.js").prop(info.st, info.args[0], "observationId");
        const k = o && V.isConst(o) ? V.constOf(o).slice(1) : "?";
        const rec = I.promRec("ext", { token: "up" + k, mayReject: true, label: "upload" });
        rec.upload = true;
        rec.upOf = k;
        return [{ k: "ret", v: I.alloc(info.st, "up" + k, rec), st: info.st }];
      },
    };
    const pr = mkProcessor(p, R, hooks, { mask: V.UNDEF, shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(true) });
    I = pr.I;
    const ended = [], watch = [];
    const acts = script.map(([kind, n]) => {
      if (kind === "end") {
        ended.push(n);
        return (st) => {
          const sp = mkSpan(I, st, "span" + n, { [E.OBSERVATION_INPUT]: C("data:image/png;base64,QUJD") }, [], { props: { instrumentationScope: L.mkObj(I, st, "scope", { name: C("x") }) } });
          return L.invoke(I, st, pr.proc, "onEnd", [sp], "onEnd" + n).map((o) => o.st);
        };
      }
      const before = ended.slice();
      const w = {
        v: null,
        check(st, k) {
          if (!R.ob(`${tag}:${kind}${n}:fulfils`, k === "ret", `${kind}() rejects although nothing but an upload fails`)) return;
          for (const x of before) R.ob(`${tag}:${kind}${n}:handed`, st.fact("handed:" + x), `in some order of events ${kind}() resolves although a span that ended before it was not handed over`);
          for (const x of before) R.ob(`${tag}:${kind}${n}:uploaded`, st.fact("uploaded:" + x), `in some order of events ${kind}() resolves although a media upload of a span that ended before it has not settled`);
        },
      };
      watch.push(w);
      return (st) => L.invoke(I, st, pr.proc, kind, [], kind + n).map((o) => ((w.v = o.v), o.st));
    });
    const r = new Sched(I, {}).explore(pr.st, { R, root: L.root, watch, acts, timers: false, onEnd: (st) => watch.forEach((_, i) => R.ob(`${tag}:settles${i}`, st.fact("watched" + i), "in some order of events a flush never settles")) });
    if (process.env.DBG) console.log(tag, r);
    if (r.imprecise) R.note(`${tag}: ${r.imprecise}`);
    else R.ob(tag + ":explored", r.paths > 0, "no schedule was followed to its end");
    R.entry(`every schedule of ${name}`);
  }
}
