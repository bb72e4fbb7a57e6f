"use strict";
const { L, V, prop, where } = require("./_common.js");
const { KEYS, mkPropagation, expected, same, mkBag, mkCtx, ctxOf, bagOf } = require("./_propagation.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const s200 = "x".repeat(200), s201 = "x".repeat(201), e40 = "e".repeat(40), e41 = "e".repeat(41);
module.exports = {
  id: "P30",
  title: "invalid propagated values are dropped alone, everywhere and without failing",
  rule: "For every attribute and every way of being invalid (not a string, over 200 characters, environment over 40 characters or not matching its pattern, prompt being a fallback or without name or integer version; single tags and metadata entries) and at the limits: the invalid value reaches neither the context nor the active span nor the baggage, values at the limit do, all other values of the same call are propagated, the callback runs once and its outcome is returned",
  assumptions: ["OpenTelemetry contexts and baggage are immutable maps"],
  min: 100,
  run(p, R) {
    const cases = [];
    for (const k of ["userId", "sessionId", "version", "traceName"]) {
      for (const [n, v] of [["201", s201], ["number", 5], ["empty", ""], ["object", { a: "b" }], ["null", null], ["bool", true]]) cases.push([`${k}:${n}`, { [k]: v }, {}]);
      cases.push([`${k}:200`, { [k]: s200 }, { [k]: s200 }]);
    }
    for (const [n, v] of [["41", e41], ["upper", "Prod"], ["langfuse", "langfuse-x"], ["langfuse-name", "langfuse"], ["langfuse-word", "langfusex1"], ["langfuse-under", "langfuse_x"], ["space", "a b"], ["empty", ""], ["number", 5], ["null", null], ["dot", "a.b"], ["newline", "a\n"]]) cases.push(["environment:" + n, { environment: v }, {}]);
    for (const v of [e40, "a", "my-env_2", "xlangfuse"]) cases.push(["environment:ok:" + v.slice(0, 9), { environment: v }, { environment: v }]);
    cases.push(["tags:mixed", { tags: ["a", s201, 5, s200, "b"] }, { tags: ["a", s200, "b"] }], ["tags:none-valid", { tags: [s201, 5] }, {}], ["tags:empty", { tags: [] }, {}]);
    cases.push(["metadata:mixed", { metadata: { a: "1", b: s201, c: 5, d: s200, e: null } }, { metadata: { a: "1", d: s200 } }], ["metadata:none-valid", { metadata: { a: s201 } }, {}], ["metadata:empty", { metadata: {} }, {}]);
    for (const [n, v] of [["fallback", { name: "n", version: 1, isFallback: true }], ["noname", { version: 1 }], ["emptyname", { name: "", version: 1 }], ["numname", { name: 3, version: 1 }], ["noversion", { name: "n" }], ["float", { name: "n", version: 1.5 }], ["word", { name: "n", version: "latest" }], ["floatstr", { name: "n", version: "1.5" }], ["emptyver", { name: "n", version: "" }], ["nan", { name: "n", version: NaN }], ["nullver", { name: "n", version: null }]]) cases.push(["prompt:" + n, { prompt: v }, {}]);
    for (const [n, v] of [["notfallback", { name: "n", version: 1, isFallback: false }], ["digits", { name: "n", version: "10" }]]) cases.push(["prompt:" + n, { prompt: v }, { prompt: v }]);
    for (const [name, P, valid] of cases)
      for (const asBaggage of [false, true]) {
        const tag = `${name}:${asBaggage ? "baggage" : "local"}`;
        const filler = { userId: "u0", traceName: "t0", metadata: { m0: "m" } };
        for (const withOthers of [false, true]) {
          const base = withOthers ? filler : {};
          const X = mkPropagation(p, R, { span: "recording" });
          const inp = { ...base, ...P, ...(P.metadata && withOthers ? { metadata: { ...P.metadata, m0: "m" } } : {}), asBaggage };
          const ok = { ...base, ...Object.fromEntries(Object.keys(P).map((k) => [k, undefined])), ...valid };
          if (P.metadata && withOthers) ok.metadata = { ...(valid.metadata || {}), m0: "m" };
          const want = expected(X.E, ok);
          let ran = 0;
          X.onFn = (info, ctx) => {
            ran++;
            const W = where(X.I, info);
            const c = ctxOf(ctx);
            if (!R.ob(tag + ":context", c, "the callback does not run in a derived context", W)) return;
            for (const r of X.read(info.st, ctx)) {
              if (!R.ob(tag + ":read", !r.error, r.error, W)) continue;
              const d = same(r.attrs, want);
              R.ob(tag + ":context-attrs", !d, `in the callback's context ${d}`, W);
            }
            const ds = same(X.spanAttrs(info.st), want);
            R.ob(tag + ":span-attrs", !ds, `on the active span ${ds}`, W);
            const bag = c.ctxBag && bagOf(c.ctxBag);
            if (!asBaggage) R.ob(tag + ":no-baggage", !bag || !bag.bagEnts.length, "values are put into baggage without asBaggage", W);
            else
              for (const r of X.read(info.st, mkCtx([], c.ctxBag))) {
                if (!R.ob(tag + ":read-baggage", !r.error, r.error, W)) continue;
                const d = same(r.attrs, want);
                R.ob(tag + ":baggage-attrs", !d, `in the baggage ${d}`, W);
              }
          };
          for (const q of X.propagate(X.st, inp, X.fn())) R.ob(tag + ":outcome", q.st.fact("calls:fn") === 1 && (q.k === "ret" ? q.v === S("res:fn") : q.v === S("thrown:fn")), q.k === "throw" ? `propagateAttributes throws ${L.labelsOf(q.v)}` : "the callback does not run exactly once, or its result is lost");
          R.ob(tag + ":reached", ran > 0, "the callback never runs");
        }
        R.entry(tag);
      }
    // what arrives from other services
    const B = (o) => mkBag(Object.entries(o).map(([k, v]) => [C(k), C(v)]));
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const key = (n) => S("ctxkey:" + n);
    const inc = [
      ["bad-environment", mkCtx([], B({ langfuse_environment: "Bad Env", langfuse_user_id: "u" })), { [E.TRACE_USER_ID]: '"u"' }],
      ["reserved-environment", mkCtx([], B({ langfuse_environment: "langfuse-x" })), {}],
      ["unknown", mkCtx([], B({ langfuse_unknown: "x", other: "y", user_id: "z", langfuse_session_id: "s" })), { [E.TRACE_SESSION_ID]: '"s"' }],
      ["trace-id", mkCtx([], B({ langfuse_trace_id: "a".repeat(32) })), {}],
      ["empty", mkCtx([], null), {}],
    ];
    for (const [n, ctx, want] of inc) {
      const X = mkPropagation(p, R, {});
      let c = 0;
      for (const r of X.read(X.st, ctx)) {
        c++;
        const d = r.error || same(r.attrs, want);
        R.ob("incoming:" + n, !d, `attributes taken from incoming baggage: ${d}`);
      }
      R.ob(`incoming:${n}:reached`, c > 0, "not analysed");
      R.entry("incoming:" + n);
    }
  },
};
