"use strict";
const { L, V, where } = require("./_common.js");
const { mkTracing, TYPES, keysOf } = require("./_tracing.js");
const { S, C, UNDEF, TRUE, single } = V;
const lab = (v) => (v ? L.labelsOf(v) : "missing");
module.exports = {
  id: "P54",
  title: "trace-level and active-span helpers act on exactly the span meant, or on nothing",
  rule: "setTraceIO() and setTraceAsPublic() of every observation type write exactly the trace input, output and public flag on the observation's own span and return the observation; setActiveTraceIO() and setActiveTraceAsPublic() write the same on the active span, getActiveTraceId() and getActiveSpanId() return the ids of the active span, and without an active span all of them do nothing, return undefined and never throw",
  assumptions: ["string input and output (other values: P27)"],
  min: 40,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const want = {
      io: { [E.TRACE_INPUT]: L.symStr("in"), [E.TRACE_OUTPUT]: L.symStr("out") },
      input: { [E.TRACE_INPUT]: L.symStr("in") },
      output: { [E.TRACE_OUTPUT]: L.symStr("out") },
      public: { [E.TRACE_PUBLIC]: TRUE },
    };
    const argsOf = (I, st, what) => (what === "public" ? [] : [L.mkObj(I, st, "io", { ...(what !== "output" ? { input: L.symStr("in") } : {}), ...(what !== "input" ? { output: L.symStr("out") } : {}) })]);
    const mk = (tag, what, active) => {
      let on = false;
      const set = (st, k, n, v, W) => {
        R.ob(tag + ":span", st.fact("force") ? "span" + k === st.fact("force") : k === 1, "another span than the one meant is written", W);
        const w = want[what] && want[what][n];
        R.ob(tag + ":only", w || v === UNDEF, `an unexpected attribute ${n} is written`, W);
        if (w) R.ob(tag + ":value", v === w, `${n} is ${lab(v)}, expected ${lab(w)}`, W);
        if (w && v === w) st.setFact("set:" + n);
      };
      const X = mkTracing(p, R, {
        onCall(info) {
          if (active && info.name === "getActiveSpan" && info.st.fact("force")) return info.st.fact("force") === "none" ? UNDEF : S(info.st.fact("force"), { label: info.st.fact("force"), ty: { kind: "object", nullable: false } });
          if (active && info.name === "getActiveSpan") {
            const s2 = info.st.clone();
            s2.setFact("none");
            return [{ k: "ret", v: UNDEF, st: s2 }, { k: "ret", v: S("span1", { label: "span1", ty: { kind: "object", nullable: false } }), st: info.st }];
          }
          return null;
        },
        onAttrs(info, k) {
          if (!on) return;
          const W = where(info.interp, info);
          const ks = keysOf(info.st, info.args[0]);
          if (R.ob(tag + ":definite", ks, "the attributes are not definite", W)) for (const [n, v] of ks) set(info.st, k, n, v, W);
        },
        onAttr(info, k) {
          if (on) set(info.st, k, V.isConst(info.args[0]) ? V.constOf(info.args[0]) : "?", info.args[1] || UNDEF, where(info.interp, info));
        },
      });
      X.go = (f) => {
        on = true;
        const r = f();
        on = false;
        return r;
      };
      return X;
    };
    const written = (st, what) => Object.keys(want[what]).every((n) => st.fact("set:" + n));
    for (const t of TYPES)
      for (const what of ["io", "input", "output", "public"]) {
        const tag = `${t}:${what}`;
        const X = mk(tag, what, false);
        let n = 0;
        for (const q of L.callFunction(X.I, X.st, L.findFunction(p, "tracing", "startObservation"), [L.symStr("nm"), UNDEF, L.mkObj(X.I, X.st, "o", { asType: C(t) })], "so")) {
          if (q.k !== "ret") continue;
          for (const r of X.go(() => L.invoke(X.I, q.st, q.v, what === "public" ? "setTraceAsPublic" : "setTraceIO", argsOf(X.I, q.st, what), "call"))) {
            n++;
            if (!R.ob(tag + ":no-throw", r.k === "ret", "the call throws")) continue;
            R.ob(tag + ":written", written(r.st, what), "the trace's attributes are not written");
            R.ob(tag + ":chain", r.v === q.v, "the call does not return the observation");
          }
        }
        R.entry(tag);
        R.ob(tag + ":reached", n > 0, "not analysed");
      }
    for (const what of ["io", "input", "output", "public"]) {
      const tag = `active:${what}`;
      const X = mk(tag, what, true);
      let n = 0;
      for (const r of X.go(() => L.callFunction(X.I, X.st, L.findFunction(p, "tracing", what === "public" ? "setActiveTraceAsPublic" : "setActiveTraceIO"), argsOf(X.I, X.st, what), "call"))) {
        n++;
        if (!R.ob(tag + ":no-throw", r.k === "ret", "the call throws")) continue;
        if (r.st.fact("none")) R.ob(tag + ":none", ![...r.st.facts.keys()].some((k) => k.startsWith("set:")), "a span is written although none is active");
        else R.ob(tag + ":written", written(r.st, what), "the active span is not written");
      }
      R.entry(tag);
      R.ob(tag + ":reached", n >= 2, "not analysed with and without an active span");
    }
    // one call after another, with other spans active: each acts on the span active at its own time
    for (const what of ["io", "public"]) {
      const tag = `active-in-turn:${what}`;
      const X = mk(tag, what, true);
      let cur = [X.st], n = 0;
      for (const [i, force] of ["span1", "none", "span2", "span1"].entries())
        cur = cur.flatMap((s) => {
          s.setFact("force", force);
          for (const k of [...s.facts.keys()]) if (k.startsWith("set:")) s.delFact(k);
          return X.go(() => L.callFunction(X.I, s, L.findFunction(p, "tracing", what === "public" ? "setActiveTraceAsPublic" : "setActiveTraceIO"), argsOf(X.I, s, what), "turn" + i)).flatMap((r) => {
            n++;
            if (!R.ob(tag + ":no-throw", r.k === "ret", "the call throws")) return [];
            if (force === "none") R.ob(tag + ":none", ![...r.st.facts.keys()].some((k) => k.startsWith("set:")), "a span is written although none is active any more");
            else R.ob(tag + ":written", written(r.st, what), `the span active at call ${i + 1} is not written`);
            return [r.st];
          });
        });
      R.entry(tag);
      R.ob(tag + ":reached", n >= 4, "not analysed");
    }
    for (const [f, id] of [["getActiveTraceId", "traceId"], ["getActiveSpanId", "spanId"]]) {
      const X = mk(f + "-in-turn", "none", true);
      let cur = [X.st], n = 0;
      for (const [i, force] of ["span1", "none", "span2", "none"].entries())
        cur = cur.flatMap((s) => {
          s.setFact("force", force);
          return X.go(() => L.callFunction(X.I, s, L.findFunction(p, "tracing", f), [], "turn" + i)).flatMap((r) => {
            n++;
            if (r.k === "ret") R.ob(f + ":in-turn", force === "none" ? r.v === UNDEF : r.v === L.symStr(id + force.slice(4)), `${f}() returns ${lab(r.v)} at call ${i + 1}, when ${force === "none" ? "no span" : force} is active`);
            return [r.st];
          });
        });
      R.entry(f + " in turn");
      R.ob(f + ":in-turn:reached", n >= 4, "not analysed");
    }
    for (const [f, id] of [["getActiveTraceId", "traceId1"], ["getActiveSpanId", "spanId1"]]) {
      const X = mk(f, "none", true);
      let n = 0;
      for (const r of X.go(() => L.callFunction(X.I, X.st, L.findFunction(p, "tracing", f), [], "call"))) {
        n++;
        if (!R.ob(f + ":no-throw", r.k === "ret", `${f}() throws`)) continue;
        R.ob(f + ":id", r.st.fact("none") ? r.v === UNDEF : r.v === L.symStr(id), `${f}() returns ${lab(r.v)} ${r.st.fact("none") ? "without an active span" : ""}`);
      }
      R.entry(f);
      R.ob(f + ":reached", n >= 2, "not analysed with and without an active span");
    }
  },
};
