"use strict";
const { L, V, prop, where } = require("./_common.js");
const { KEYS, mkPropagation, expected, same, show, mkBag, mkCtx, ctxOf, bagOf } = require("./_propagation.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
module.exports = {
  id: "P31",
  title: "nested propagation merges tags and metadata, overrides the rest, and ends with its callback",
  rule: "For an inner propagateAttributes inside an outer one, each with and without baggage: inside the inner callback readers see the inner value of every attribute the inner call sets, the outer value of all others, the union of tags without duplicates and the entries of both metadata objects, inner ones winning; after the inner callback (returned or thrown) and in the outer context exactly the outer values are seen; local values win over incoming baggage; the objects given by the caller are unchanged",
  assumptions: ["OpenTelemetry contexts and baggage are immutable maps"],
  min: 30,
  run(p, R) {
    const outer = { userId: "u1", sessionId: "s1", environment: "env1", tags: ["a", "b"], metadata: { x: "1", y: "1" }, prompt: { name: "p1", version: 1 } };
    const inners = {
      scalars: { userId: "u2", traceName: "t2", environment: "env2", version: "v2", prompt: { name: "p2", version: 2 } },
      tags: { tags: ["b", "c", "c"] },
      metadata: { metadata: { y: "2", z: "3" } },
      all: { userId: "u2", sessionId: "s2", tags: ["d"], metadata: { x: "9" } },
      invalid: { userId: "x".repeat(201), tags: [5], metadata: { y: 4 } },
      none: {},
    };
    for (const [n, inner] of Object.entries(inners))
      for (const ob of [false, true])
        for (const ib of [false, true]) {
          const tag = `${n}:${ob ? "baggage" : "local"}:${ib ? "baggage" : "local"}`;
          const X = mkPropagation(p, R, {});
          const merged = { ...outer, ...(n === "invalid" ? {} : inner), tags: n === "invalid" ? outer.tags : [...new Set([...outer.tags, ...(inner.tags || [])])], metadata: { ...outer.metadata, ...(n === "invalid" ? {} : inner.metadata || {}) } };
          const wantIn = expected(X.E, merged), wantOut = expected(X.E, outer);
          let inN = 0, outN = 0;
          const cmp = (st, ctx, want, key, what, W) => {
            for (const r of X.read(st, ctx)) {
              const d = r.error || same(r.attrs, want);
              R.ob(tag + key, !d, `${what}: ${d}`, W);
            }
          };
          X.onFn = (info, ctx, id) => {
            const W = where(X.I, info);
            if (id === "fnInner") {
              inN++;
              if (!R.ob(tag + ":inner-context", ctxOf(ctx), "the inner callback does not run in a derived context", W)) return;
              cmp(info.st, ctx, wantIn, ":inner", "in the inner callback", W);
              if (ob && ib) cmp(info.st, mkCtx([], ctxOf(ctx).ctxBag), wantIn, ":inner-baggage", "another service called from the inner callback", W);
            }
          };
          X.body = {
            fnOuter(info) {
              const W = where(X.I, info);
              const st = info.st;
              const octx = X.ctxs.get(st.fact("ctx"));
              const outs = X.propagate(st, { ...inner, ...(ib ? { asBaggage: true } : {}) }, X.fn("fnInner"), "inner");
              for (const o of outs) {
                outN++;
                R.ob(tag + ":restored", o.st.fact("ctx") === octx.key, "after the inner callback another context is active", W);
                cmp(o.st, octx, wantOut, ":outer-after", "after the inner callback, in the outer context", W);
              }
              return outs;
            },
          };
          for (const q of X.propagate(X.st, { ...outer, ...(ob ? { asBaggage: true } : {}) }, X.fn("fnOuter"), "outer")) {
            const st = q.st;
            R.ob(tag + ":left", st.fact("ctx") === undefined, "a context stays active after the callback");
            for (const [site, P] of [["outer", outer], ["inner", inner]]) for (const k of ["tags", "metadata"]) {
              if (!P[k]) continue;
              const v = prop(st, V.mkVal([V.objAtom("params:" + site)]), k);
              const want = Array.isArray(P[k]) ? "[" + P[k].map((x) => JSON.stringify(x)).join(",") + "]" : "{" + Object.entries(P[k]).map(([a, b]) => a + ":" + JSON.stringify(b)).sort().join(",") + "}";
              R.ob(`${tag}:${site}:${k}:unchanged`, show(st, v) === want, `the caller's ${k} object is changed to ${show(st, v)}`);
            }
          }
          R.entry(tag);
          R.ob(tag + ":reached", inN > 0 && outN > 0, "the inner callback never runs");
        }
    // incoming baggage loses against local values
    const X0 = mkPropagation(p, R, { ambient: mkCtx([], mkBag([[C("langfuse_user_id"), C("bu")], [C("langfuse_session_id"), C("bs")], [C("langfuse_environment"), C("benv")], [C("langfuse_prompt_version"), C("3")], [C("langfuse_prompt_name"), C("bp")], [C("langfuse_metadata_k"), C("bk")]])) });
    let n = 0;
    X0.onFn = (info, ctx) => {
      n++;
      const E = X0.E;
      const want = { [E.TRACE_USER_ID]: '"lu"', [E.TRACE_SESSION_ID]: '"bs"', [E.ENVIRONMENT]: '"lenv"', [E.OBSERVATION_PROMPT_NAME]: '"lp"', [E.OBSERVATION_PROMPT_VERSION]: "4", [E.TRACE_METADATA + ".k"]: '"lk"' };
      for (const r of X0.read(info.st, ctx)) {
        const d = r.error || same(r.attrs, want);
        R.ob("local-over-baggage", !d, `with incoming baggage: ${d}`, where(X0.I, info));
      }
    };
    X0.propagate(X0.st, { userId: "lu", environment: "lenv", prompt: { name: "lp", version: 4 }, metadata: { k: "lk" } }, X0.fn());
    R.ob("local-over-baggage:reached", n > 0, "not analysed");
  },
};
