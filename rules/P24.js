"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkTracing, TYPES, keysOf, calls, HISTORIES } = require("./_tracing.js");
const { S, C, UNDEF, TRUE, FALSE, single } = V;
module.exports = {
  id: "P24",
  title: "observations opened by a wrapper are ended exactly once, after the work, and marked on error",
  rule: "For observe() and startActiveObservation() with every observation type and option, and a user function that returns, returns a promise that fulfils or rejects, or throws: exactly one span is started; unless ending is switched off it is ended exactly once, after the function returned or its promise settled and before the caller sees the outcome; with ending switched off never; an error marks the observation as error before it ends, a success does not",
  assumptions: ["events end when created, and OpenTelemetry ignores further end() calls"],
  min: 40,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    for (const api of ["observe", "startActiveObservation"])
      for (const t of TYPES.concat([null]))
        for (const opt of ["default", "endTrue", "keepOpen", "noCapture"]) {
          if (opt === "noCapture" && api !== "observe") continue;
          if (api === "startActiveObservation" && t === "event") continue;
          if (opt !== "default" && t && !["generation"].includes(t)) continue;
          const tag = `${api}:${t || "default"}:${opt}`;
          const keep = opt === "keepOpen";
          const X = mkTracing(p, R, {
            onStart(info, n) {
              R.ob(tag + ":one-span", n === 1, "more than one span is started", where(info.interp, info));
            },
            onEnd(info, k) {
              const st = info.st, W = where(info.interp, info);
              if (t === "event") return;
              R.ob(tag + ":end-off", !keep, "the observation is ended although ending is switched off", W);
              R.ob(tag + ":end-after", st.fact("mode") && (st.fact("mode") !== "async" || st.fact("settled")), "the observation is ended before the function's work is done", W);
              R.ob(tag + ":end-once", st.fact("ended" + k) === 1, "the observation is ended twice", W);
              const err = st.fact("mode") === "throw" || st.fact("settled") === "rejected";
              R.ob(tag + ":error-marked", !err || st.fact("status1") === 2 || st.fact("errLevel"), "the observation is ended without being marked as error", W);
              R.ob(tag + ":success-unmarked", err || (st.fact("status1") !== 2 && !st.fact("errLevel")), "a successful observation is marked as error", W);
            },
            onAttrs(info) {
              const ks = keysOf(info.st, info.args[0]);
              const lv = ks && ks.get(E.OBSERVATION_LEVEL);
              if (lv && lv === C("ERROR")) info.st.setFact("errLevel");
            },
          });
          const o = L.mkObj(X.I, X.st, "opts", { ...(t ? { asType: C(t) } : {}), ...(keep ? { endOnExit: FALSE } : opt === "endTrue" ? { endOnExit: TRUE } : {}), ...(opt === "noCapture" ? { captureInput: FALSE, captureOutput: FALSE } : {}) });
          const fn = L.findFunction(p, "tracing", api);
          let outs = [];
          if (api === "observe") for (const w of L.callFunction(X.I, X.st, fn, [X.fn, o], "obs")) outs.push(...(w.k === "ret" ? X.I.call(w.st, w.v, UNDEF, [S("arg0", { ty: { kind: "string", nullable: false } })], null, L.root, "callw", null) : []));
          else outs = L.callFunction(X.I, X.st, fn, [L.symStr("name"), X.fn, o], "act");
          const done = (st, how) => {
            seen.add(how);
            const n = st.fact("ended1") || 0;
            R.ob(tag + ":started", st.fact("spans") === 1, "no span is started");
            if (keep && t !== "event") R.ob(tag + ":kept-open", n === 0, "the observation is ended although ending is switched off");
            else R.ob(tag + ":ended", t === "event" ? n >= 1 : n === 1, n ? "the observation is ended more than once" : `the observation is never ended when the function finishes (${how})`);
            if (keep) R.ob(tag + ":error-marked", !/throw|rejected/.test(how) || st.fact("status1") === 2 || st.fact("errLevel"), "the observation is not marked as error");
          };
          const seen = new Set();
          for (const q of outs) {
            const mode = q.st.fact("mode");
            if (mode !== "async") done(q.st, mode);
            else if (q.k === "ret") for (const a of X.I.awaitVal(q.st, q.v, null, L.root)) if (a.st.fact("settled")) done(a.st, a.st.fact("settled"));
          }
          R.entry(tag);
          R.ob(tag + ":reached", ["sync", "throw", "ok", "rejected"].every((x) => seen.has(x)), "not all ways the function can finish reach the caller");
        }
    // the mark carries the error's own message
    for (const api of ["observe", "startActiveObservation"])
      for (const how of ["throw", "reject"])
        for (const [kind, want] of [["error", ["boom"]], ["type error", ["boom"]], ["text", api === "observe" ? ["oops"] : null], ["error without message", null]]) {
          const tag = `${api}:${how}:${kind}`;
          let n = 0;
          const X = mkTracing(p, R, {
            onCall(info) {
              const st = info.st;
              if (info.name === "setStatus" && X.spanNo(info.thisV)) {
                const m = prop(st, info.args[0], "message");
                if (m && m !== UNDEF) st.setFact("msg", m.key);
              }
              if (info.callee.k !== "sym" || info.callee.id !== "fn") return null;
              const err = kind === "text" ? C("oops") : L.mkObj(X.I, st, "boom", { message: C(kind === "error without message" ? "" : "boom") }, { ext: kind === "type error" ? "TypeError" : "Error" });
              if (how === "throw") return [{ k: "throw", v: err, st }];
              return [{ k: "ret", v: X.I.alloc(st, "fnp", X.I.promRec("rejected", { v: err })), st }];
            },
            onAttrs(info) {
              const ks = keysOf(info.st, info.args[0]);
              const m = ks && ks.get(E.OBSERVATION_STATUS_MESSAGE);
              if (m && m !== UNDEF) info.st.setFact("msg", m.key);
            },
          });
          const done = (st) => {
            n++;
            const m = st.fact("msg");
            R.ob(tag + ":message", want ? want.some((w) => m === C(w).key) : m !== undefined || kind !== "text", `the observation of a failed call carries the message ${m}, expected ${want}`);
          };
          const fn = L.findFunction(p, "tracing", api);
          let outs = [];
          if (api === "observe") for (const w of L.callFunction(X.I, X.st, fn, [X.fn], "obs")) outs.push(...(w.k === "ret" ? X.I.call(w.st, w.v, UNDEF, [], null, L.root, "callw", null) : []));
          else outs = L.callFunction(X.I, X.st, fn, [L.symStr("name"), X.fn], "act");
          for (const q of outs) {
            if (how === "throw") done(q.st);
            else if (q.k === "ret") for (const a of X.I.awaitVal(q.st, q.v, null, L.root)) done(a.st);
          }
          R.entry(tag);
          R.ob(tag + ":reached", n > 0, "the failure never reaches the caller");
        }
    // histories of calls of the same wrapper: one after another, nested, overlapping
    for (const api of ["observe", "startActiveObservation"])
      for (const opts of [{}, { endOnExit: false }, { asType: "generation" }])
        for (const [hn, list] of Object.entries(HISTORIES)) {
          if (opts.asType && hn !== "overlapping") continue;
          const tag = `${api}:${JSON.stringify(opts)}:${hn}`;
          const keep = opts.endOnExit === false;
          calls(p, R, tag, {
            api, list, opts,
            check({ i, bad, ended, marked, message, msg, st, span }) {
              const t = `${tag}:call${i + 1}`;
              R.ob(t + ":ended", ended === (keep ? 0 : 1), keep ? "an observation is ended although ending is switched off" : ended ? "an observation is ended more than once" : "a call reaches its caller before its own observation is ended");
              R.ob(t + ":marked", !!marked === bad, bad ? "the observation of a failed call is not marked as error" : "the observation of a successful call is marked as error");
              if (bad) R.ob(t + ":message", message === msg, `the observation of a failed call carries the message ${message}, expected ${msg}`);
              for (let j = 1; j <= (st.fact("spans") || 0); j++) R.ob(t + ":others", j === span || [0, 1].includes(st.fact("ended" + j) || 0), "an observation is ended more than once");
            },
          });
        }
  },
};
