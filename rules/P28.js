"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkTracing, TYPES, keysOf } = require("./_tracing.js");
const { S, C, UNDEF, NULL, TRUE, FALSE, single } = V;
module.exports = {
  id: "P28",
  title: "observations nest: children under their parent, user code inside its observation",
  rule: "For every way to create an observation: with an explicit parent (given span context, or a parent observation's method) the span is started under exactly that parent, otherwise under the active context; the function given to observe()/startActiveObservation() runs inside a context whose active span is the new span and which carries the app-root claim of that span's trace; all spans come from the isolated tracer provider if one is set and from the global one otherwise",
  assumptions: ["OpenTelemetry's setSpan/setSpanContext/with/startActiveSpan do what they document"],
  min: 20,
  run(p, R) {
    const isCall = (v, name) => {
      const a = v && single(v);
      return a && a.k === "sym" && a.callArgs && new RegExp(name + "\\(\\)$").test(a.label || "") ? a : null;
    };
    const isActive = (v) => !!isCall(v, "active");
    for (const api of ["startObservation", "child", "startActiveObservation", "observe", ...TYPES.filter((x) => x !== "span").map((x) => "child of " + x)])
      for (const t of ["span", "generation", "event"])
        for (const par of [true, false]) {
          const pt = /^child of (.*)/.test(api) ? RegExp.$1 : "span", isChild = /^child/.test(api);
          if (pt !== "span" && t !== "generation") continue;
          if (api === "startActiveObservation" && t === "event") continue;
          if (isChild && par) continue;
          const tag = `${api}:${t}:${par ? "parent" : "no-parent"}`;
          let started = 0, ran = 0;
          const target = isChild ? 2 : 1;
          const X = mkTracing(p, R, {
            onStart(info, k, active) {
              if (k !== target) return;
              started++;
              const W = where(info.interp, info);
              const ctx = active ? (info.args.length >= 4 ? info.args[2] : UNDEF) : info.args[2] || UNDEF;
              if (par || isChild) {
                const a = isCall(ctx, "setSpanContext");
                R.ob(tag + ":parent", a && isActive(a.callArgs[0]), "the span is not started under the given parent", W);
                if (a) {
                  const sc = a.callArgs[1];
                  R.ob(tag + ":parent-id", par ? sc === S("psc") : prop(info.st, sc, "spanId") === L.symStr("spanId1") && prop(info.st, sc, "traceId") === L.symStr("traceId1") && prop(info.st, sc, "traceFlags") === S("flags1"), "the span is started under another parent", W);
                }
              } else R.ob(tag + ":active-parent", ctx === UNDEF || isActive(ctx), "the span is not started under the active context", W);
            },
            onFn(info) {
              ran++;
              const W = where(info.interp, info);
              const key = info.st.fact("ctx");
              const c = key && ctxs.get(key);
              if (!R.ob(tag + ":context", c, "the function does not run in the observation's context", W)) return;
              R.ob(tag + ":claim", c.claim && c.claim === L.symStr("traceId1"), "the function's context lacks the app-root claim of its trace", W);
              let base = c.baseCtx;
              if (api === "observe") {
                const a = base && isCall(base, "setSpan");
                R.ob(tag + ":active-span", a && isActive(a.callArgs[0]) && a.callArgs[1] === S("span1"), "the function does not run with the observation as active span", W);
              } else R.ob(tag + ":active-span", base && isActive(base), "the function does not run with the observation as active span", W);
            },
            onWith(info) {
              const a = single(info.args[0]);
              if (a) ctxs.set(info.args[0].key, a);
            },
          });
          const ctxs = new Map();
          const I = X.I;
          const psc = S("psc", { label: "psc", ty: { kind: "object", nullable: false } });
          const o = L.mkObj(I, X.st, "opts", { asType: C(t), ...(par ? { parentSpanContext: psc } : {}), name: L.symStr("nm") });
          const attrs = L.mkObj(I, X.st, "attrs", {});
          if (api === "startObservation") L.callFunction(I, X.st, L.findFunction(p, "tracing", api), [L.symStr("nm"), attrs, o], "so");
          else if (isChild) for (const q of L.callFunction(I, X.st, L.findFunction(p, "tracing", "startObservation"), [L.symStr("parent"), L.mkObj(I, X.st, "pattrs", {}), L.mkObj(I, X.st, "popts", { asType: C(pt) })], "so")) L.invoke(I, q.st, q.v, "startObservation", [L.symStr("nm"), attrs, o], "ch");
          else if (api === "startActiveObservation") L.callFunction(I, X.st, L.findFunction(p, "tracing", api), [L.symStr("nm"), X.fn, o], "so");
          else for (const w of L.callFunction(I, X.st, L.findFunction(p, "tracing", api), [X.fn, o], "obs")) I.call(w.st, w.v, UNDEF, [], null, L.root, "callw", null);
          R.entry(tag);
          R.ob(tag + ":reached", started > 0 && (ran > 0 || api === "startObservation" || isChild), "no span is started or the function does not run");
        }
    // the provider in force is the one set last, also when tracers were obtained before
    {
      const tag = "provider:history";
      let want = null, n = 0;
      const X = mkTracing(p, R, {
        analyseProvider: true,
        opts: { freshGlobals: true },
        onCall(info) {
          if (info.name === "getTracerProvider") return S("globalProvider", { label: "globalProvider", ty: { kind: "object", nullable: false } });
          if (info.name === "getTracer") {
            const lab = L.labelsOf(info.thisV);
            return S("tracer of " + lab, { label: "tracer of " + lab, ty: { kind: "object", nullable: false } });
          }
          if (info.name === "startSpan") {
            n++;
            R.ob(`${tag}:${info.st.fact("step")}`, L.labelsOf(info.thisV) === "tracer of " + want, `after the provider was set to ${want} a span is started by the ${L.labelsOf(info.thisV)}`, where(info.interp, info));
          }
          return null;
        },
      });
      const prov = (x) => (x ? S(x, { label: x, ty: { kind: "object", nullable: false } }) : NULL);
      let sts = [X.st], step = 0;
      for (const x of [undefined, "isoA", "isoB", null, "isoB", "isoA", null]) {
        step++;
        if (x !== undefined) sts = sts.flatMap((s) => L.callFunction(X.I, s, L.findFunction(p, "tracing", "setLangfuseTracerProvider"), [prov(x)], "set" + step).map((o) => o.st));
        want = x || "globalProvider";
        for (const s of sts) s.setFact("step", step);
        sts = sts.flatMap((s) => L.callFunction(X.I, s, L.findFunction(p, "tracing", "startObservation"), [C("n")], "so" + step).map((o) => o.st));
      }
      R.entry(tag);
      R.ob(tag + ":reached", n >= 7, "not every step starts a span");
    }
    // tracer provider
    for (const iso of [true, false, "reset"]) {
      const tag = "provider:" + iso;
      let n = 0;
      const hooks = {
        onCall(info) {
          if (info.name === "getTracerProvider") return S("globalProvider", { label: "globalProvider", ty: { kind: "object", nullable: false } });
          if (info.name === "getTracer") {
            n++;
            const lab = L.labelsOf(info.thisV);
            R.ob(tag + ":chosen", lab === (iso === true ? "isoProvider" : "globalProvider"), `spans are created by ${lab}`, where(info.interp, info));
            return S("tracer", { label: "tracer", ty: { kind: "object", nullable: false } });
          }
          return null;
        },
      };
      const X = mkTracing(p, R, { ...hooks, analyseProvider: true, opts: { freshGlobals: true } });
      const prov = S("isoProvider", { label: "isoProvider", ty: { kind: "object", nullable: false } });
      let sts = [X.st];
      const set = L.findFunction(p, "tracing", "setLangfuseTracerProvider");
      if (iso) sts = sts.flatMap((s) => L.callFunction(X.I, s, set, [prov], "set").map((o) => o.st));
      if (iso === "reset") sts = sts.flatMap((s) => L.callFunction(X.I, s, set, [NULL], "unset").map((o) => o.st));
      for (const s of sts) {
        const before = n;
        L.callFunction(X.I, s, L.findFunction(p, "tracing", "getLangfuseTracer"), [], "gt");
        R.ob(tag + ":reached", n > before, "no tracer is obtained");
      }
      R.entry(tag);
    }
  },
};
