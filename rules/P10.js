"use strict";
const { L, V, where, prop, fireTimers, history } = require("./_common.js");
const { Sched } = require("../engine/sched.js");
const { S, C, single } = V;
module.exports = {
  id: "P10",
  title: "scores are sent exactly once and flush waits for all of them",
  rule: "For every history of create/flush/shutdown calls and timer firings in the list, and any flush threshold: each created score is in exactly one ingestion request, the promise of flush()/shutdown() settles only after the requests carrying all scores created before the call have settled, never rejects, and without an explicit flush every score is sent once the armed timers have fired; no request carries more than 100 events",
  assumptions: ["histories of up to four scores (and one of 101 for the batch bound)", "ingestion requests may fail at any point", "laziest asynchronous schedule"],
  min: 8,
  run(p, R) {
    const cls = L.findClass(p, "client", "ScoreManager");
    let I, tag;
    const mk = (env, plainAnswer) => {
      I = R.use(
        L.mkInterp(p, {
          opts: { K: 12, maxElems: 400, maxSteps: 2e6, stringifyThrows: false },
          debugEnabled: false,
          env,
          onSettle(i) {
            for (const n of i.rec.scores || []) i.st.setFact("done:" + n);
          },
          onApi(info, rec) {
            if (!info.args[0]) return null;
            const b = single(info.args[0]) && info.st.rec(single(info.args[0])) && prop(info.st, info.args[0], "batch");
            const arr = b && single(b) && info.st.rec(single(b));
            if (!arr || arr.t !== "arr" || !arr.elems) {
              R.ob(tag + ":batch-known", false, "the events sent could not be identified", where(I, info));
              return null;
            }
            R.ob(tag + ":batch-size", arr.elems.length <= 100, `a request carries ${arr.elems.length} events`, where(I, info));
            rec.scores = [];
            for (const e of arr.elems) {
              const body = prop(info.st, e.v, "body");
              const n = body && prop(info.st, body, "name");
              if (!n) continue;
              const nm = L.labelsOf(n);
              rec.scores.push(nm);
              info.st.count("sent:" + nm);
              R.ob(tag + ":once", info.st.fact("sent:" + nm) === 1, "a score is sent twice", where(I, info));
            }
            if (plainAnswer) rec.okVal = L.mkObj(I, info.st, "answer", { successes: L.mkArr(I, info.st, "succ", []), errors: L.mkArr(I, info.st, "errs", []) });
            return null;
          },
        }),
      );
      const st = new L.State();
      const outs = L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { apiClient: S("api", { label: "api", ty: { kind: "object", nullable: false } }) })]);
      return { outs };
    };
    const score = (st, n) => L.mkObj(I, st, "data:" + n, { name: S("name:" + n, { label: n, ty: { kind: "string", nullable: false } }), value: S("value:" + n), id: S("id:" + n, { ty: { kind: "string", nullable: true } }) });
    const run = (name, steps, total, env) => {
      tag = name;
      const { outs } = mk(env);
      let seen = 0;
      for (const c of outs) {
        if (c.k !== "ret") continue;
        const m = c.v;
        const H = {
          create: (n) => (st) => L.invoke(I, st, m, "create", [score(st, n)], "create" + n).map((o) => (R.ob(tag + ":create-does-not-throw", o.k === "ret", "create() throws"), o)),
          flushNoWait: (q) => (st) => L.invoke(I, st, m, "flush", [], "flush" + q),
          timers: (q) => (st) => fireTimers(I, st, q),
          drain: () => (st) => I.drain(st, L.root) || [],
          wait: (meth, before) => (st) =>
            L.invoke(I, st, m, meth, [], meth + "W").flatMap((o) =>
              I.awaitVal(o.st, o.v, null, L.root).map((q) => {
                R.ob(`${tag}:${meth}-does-not-reject`, q.k === "ret", `${meth}() rejects`);
                for (const n of before) {
                  R.ob(`${tag}:${meth}-sends-all`, q.st.fact("sent:" + n), `${meth}() resolves although score ${n}, created before the call, was never sent`);
                  R.ob(`${tag}:${meth}-waits`, q.st.fact("done:" + n), `${meth}() resolves although the request carrying score ${n} is still in flight`);
                }
                seen++;
                return q;
              }),
            ),
        };
        const end = history(I, c.st, steps(H));
        for (const s of end)
          if (total)
            for (const n of total) {
              seen++;
              R.ob(`${tag}:eventually-sent`, s.fact("sent:" + n), `score ${n} is neither sent nor scheduled for sending`);
            }
      }
      R.ob(tag + ":reached", seen > 0, "the history could not be followed to its end");
      R.entry("history " + name); 
    };
    const meths = ["flush", "shutdown"];
    for (const w of meths) {
      run(`create-create-${w}`, (H) => [H.create("a"), H.create("b"), H.wait(w, ["a", "b"])]);
      run(`inflight-${w}`, (H) => [H.create("a"), H.flushNoWait(1), H.create("b"), H.wait(w, ["a", "b"])]);
      run(`concurrent-${w}`, (H) => [H.create("a"), H.flushNoWait(1), H.flushNoWait(2), H.wait(w, ["a"])]);
      run(`timer-${w}`, (H) => [H.create("a"), H.timers(1), H.create("b"), H.timers(2), H.create("c"), H.wait(w, ["a", "b", "c"])]);
    }
    run("no-flush", (H) => [H.create("a"), H.create("b"), H.timers(1), H.drain(), H.timers(2), H.drain()], ["a", "b"]);
    run("no-flush-inflight", (H) => [H.create("a"), H.timers(1), H.create("b"), H.timers(2), H.drain(), H.create("c"), H.timers(3), H.drain(), H.timers(4), H.drain()], ["a", "b", "c"]);
    const many = Array.from({ length: 101 }, (_, i) => "s" + i);
    run("batches", (H) => [...many.map((n) => H.create(n)), H.wait("flush", many)], null, { LANGFUSE_FLUSH_AT: C("1000"), LANGFUSE_FLUSH_INTERVAL: C("60") });
    run("after-flush", (H) => [H.create("a"), H.wait("flush", ["a"]), H.create("b"), H.timers(1), H.drain(), H.timers(2), H.drain()], ["a", "b"]);
    // every interleaving of calls, answers and timers
    const interleaved = (name, at, script) => {
      tag = `any-order:${name}:flushAt${at}`;
      const { outs } = mk({ LANGFUSE_FLUSH_AT: C(String(at)), LANGFUSE_FLUSH_INTERVAL: C("60") }, true);
      for (const c of outs) {
        if (c.k !== "ret") continue;
        const m = c.v, made = [], watch = [];
        const acts = script.map(([kind, n]) => {
          if (kind === "create") {
            made.push(n);
            return (st) => L.invoke(I, st, m, "create", [score(st, n)], "create" + n).map((o) => o.st);
          }
          const before = made.slice();
          const w = {
            v: null,
            check(st, k) {
              R.ob(`${tag}:${n}-does-not-reject`, k === "ret", `${kind}() rejects`);
              for (const x of before) R.ob(`${tag}:${n}-waits`, st.fact("done:" + x), `in some order of events ${kind}() resolves although score ${x}, created before the call, ${st.fact("sent:" + x) ? "is still in flight" : "was not sent"}`);
            },
          };
          watch.push(w);
          return (st) => L.invoke(I, st, m, kind, [], kind + n).map((o) => ((w.v = o.v), o.st));
        });
        const sc = new Sched(I, {});
        const r = sc.explore(c.st, { R,
          root: L.root, watch, acts, timers: true,
          onEnd(st) {
            for (const x of made) R.ob(tag + ":sent", st.fact("sent:" + x), `in some order of events score ${x} is never sent`);
          },
        });
        if (r.imprecise) R.note && R.note(`${tag}: ${r.imprecise}`);
        else R.ob(tag + ":explored", r.paths > 0, "no schedule was followed to its end");
        if (process.env.DBG) console.log(tag, r);
      }
      R.entry(`every schedule of ${name}`);
    };
    for (const at of [1, 2, 100]) {
      interleaved("create-flush-create-flush", at, [["create", "a"], ["flush", 1], ["create", "b"], ["flush", 2]]);
      interleaved("two-flushes-create-shutdown", at, [["create", "a"], ["flush", 1], ["flush", 2], ["create", "b"], ["shutdown", 3]]);
      interleaved("create-create-flush-create", at, [["create", "a"], ["create", "b"], ["flush", 1], ["create", "c"]]);
    }
  },
};
