"use strict";
const { L, V, prop, where, canon } = require("./_common.js");
const { mkTracing, TYPES, calls, HISTORIES } = require("./_tracing.js");
const { S, C, UNDEF, TRUE, FALSE, single } = V;
module.exports = {
  id: "P23",
  title: "tracing wrappers are transparent: same call, same result, same error",
  rule: "For observe() and startActiveObservation() with every observation type and option, and a user function that returns, returns a promise that fulfils or rejects, or throws: the function is called exactly once, synchronously, with the caller's this and arguments (respectively the new observation); the caller gets exactly its result, its promise's value, or its error",
  assumptions: ["converting the user's error to a string does not throw", "results that are promises are instances of Promise"],
  min: 40,
  run(p, R) {
    for (const api of ["observe", "startActiveObservation"])
      for (const t of TYPES.concat([null]))
        for (const opt of ["default", "keepOpen", "noCapture"]) {
          if (opt === "noCapture" && api !== "observe") continue;
          if (api === "startActiveObservation" && t === "event") continue;
          if (opt !== "default" && t && !["generation", "event"].includes(t)) continue;
          const tag = `${api}:${t || "default"}:${opt}`;
          const args = [S("arg0"), S("arg1")];
          const thisV = L.symObj("self");
          const X = mkTracing(p, R, {
            onFn(info) {
              const W = where(info.interp, info);
              R.ob(tag + ":once", info.st.fact("fnCalls") === 1, "the function is called more than once", W);
              if (api === "observe") {
                R.ob(tag + ":this", info.thisV === thisV, "the function is called with another this", W);
                R.ob(tag + ":args", info.args.length === 2 && info.args[0] === args[0] && info.args[1] === args[1], `the function is called with other arguments (${info.args.map(L.labelsOf)} ${info.args.open})`, W);
              } else {
                const r = info.args[0] && single(info.args[0]) && info.st.rec(single(info.args[0]));
                R.ob(tag + ":observation", info.args.length === 1 && r && r.cls, "the function does not get the observation", W);
              }
            },
          });
          const o = L.mkObj(X.I, X.st, "opts", { ...(t ? { asType: C(t) } : {}), ...(opt === "keepOpen" ? { endOnExit: FALSE } : {}), ...(opt === "noCapture" ? { captureInput: FALSE, captureOutput: FALSE } : {}) });
          const fn = L.findFunction(p, "tracing", api);
          let outs = [];
          if (api === "observe") {
            for (const w of L.callFunction(X.I, X.st, fn, [X.fn, o], "obs")) {
              if (!R.ob(tag + ":wraps", w.k === "ret" && !w.st.fact("fnCalls"), "observe() throws or calls the function")) continue;
              outs.push(...X.I.call(w.st, w.v, thisV, args, null, L.root, "callw", null));
            }
          } else outs = L.callFunction(X.I, X.st, fn, [L.symStr("name"), X.fn, o], "act");
          const seen = new Set();
          for (const q of outs) {
            const mode = q.st.fact("mode");
            if (!R.ob(tag + ":called", q.st.fact("fnCalls") === 1, q.k === "throw" ? `the wrapper throws ${L.labelsOf(q.v)} without calling the function` : "the function is not called synchronously")) continue;
            if (mode === "sync") {
              seen.add("sync");
              R.ob(tag + ":result", q.k === "ret" && q.v === S("res", {}) , q.k === "ret" ? `the caller gets ${L.labelsOf(q.v)} instead of the function's result` : `the caller gets an error although the function returned (${L.labelsOf(q.v)})`);
            } else if (mode === "throw") {
              seen.add("throw");
              R.ob(tag + ":error", q.k === "throw" && q.v === S("thrown", {}), q.k === "ret" ? "the function's error is swallowed" : `the caller gets another error (${L.labelsOf(q.v)})`);
            } else {
              if (!R.ob(tag + ":promise", q.k === "ret", `the wrapper throws although the function returned a promise (${L.labelsOf(q.v)})`)) continue;
              for (const a of X.I.awaitVal(q.st, q.v, null, L.root)) {
                const s = a.st.fact("settled");
                if (!R.ob(tag + ":waits", s, "the returned promise settles before the function's promise")) continue;
                seen.add(s);
                if (s === "ok") R.ob(tag + ":value", a.k === "ret" && a.v === S("val", {}), `the promise ${a.k === "ret" ? "fulfils with " : "rejects with "}${L.labelsOf(a.v)} instead of the function's value`);
                else R.ob(tag + ":rejection", a.k === "throw" && a.v === S("rejErr", {}), a.k === "ret" ? "the function's rejection is swallowed" : `the promise rejects with another error (${L.labelsOf(a.v)})`);
              }
            }
          }
          R.entry(tag);
          R.ob(tag + ":reached", ["sync", "throw", "ok", "rejected"].every((x) => seen.has(x)), "not all ways the function can finish reach the caller");
        }
    // histories of calls of the same wrapper: one after another, nested, overlapping
    for (const api of ["observe", "startActiveObservation"])
      for (const [hn, list] of Object.entries(HISTORIES)) {
        const tag = `${api}:${hn}`;
        calls(p, R, tag, {
          api, list,
          check({ i, c, bad, ok, got, gotError, args, self, msg }) {
            const t = `${tag}:call${i + 1}`;
            if (bad) R.ob(t + ":error", gotError, ok === "ret" ? "the function's error is swallowed" : `the caller gets another error than the function's (${msg})`);
            else R.ob(t + ":result", ok === "ret" && got === canon(c.v), ok === "ret" ? `the caller gets ${got} instead of ${canon(c.v)}` : "the caller gets an error although the function did not fail");
            if (api === "observe") {
              R.ob(t + ":args", args === canon(c.args) + c.args.length, `the function is called with ${args} instead of ${canon(c.args)}`);
              R.ob(t + ":this", self === true, "the function is called with another this");
            }
          },
        });
      }
  },
};
