"use strict";
const { L, V, prop, where, konst, readConst, canon } = require("./_common.js");
const { ts } = L;
const { S, C, UNDEF, NULL, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const FN = { kind: "function", nullable: false };
const STR = { kind: "string", nullable: false };
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
module.exports = {
  id: "P44",
  title: "the Vercel AI SDK integration forwards every telemetry event and labels every span",
  rule: "Every public callback of the AI SDK's OpenTelemetry tracer is forwarded by the integration exactly once, to the callback of the same name, with the same arguments and result; the tracer option is passed on; for every span type and runtime context (missing, with strings, numbers, booleans, falsy, null, undefined and unserialisable values, well-formed, malformed and fallback prompts) the enrichment never throws and yields exactly the metadata entries and, on model-call spans only, the prompt link",
  assumptions: ["the deprecated alias onStepFinish is not emitted by the AI SDK next to onStepEnd"],
  min: 100,
  run(p, R) {
    const cls = L.findClass(p, "vercel-ai-sdk", "LangfuseVercelAiSdkIntegration");
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const mk = (tag, hooks, options) => {
      const X = { news: 0 };
      const I = (X.I = R.use(
        L.mkInterp(p, {
          debugEnabled: false,
          opts: { K: 24, stringifyThrows: hooks.stringifyThrows },
          onNew(info) {
            const n = (info.callee.name || info.label || info.callee.label || "").replace(/^.*[:.]/, "");
            if (/OpenTelemetry$/.test(n)) {
              X.news++;
              X.args = info.args;
              X.st = info.st;
              return S("delegate", { label: "delegate", ty: OBJ });
            }
            return null;
          },
          onCall(info) {
            if (info.thisV && single(info.thisV) && single(info.thisV).id === "delegate") {
              hooks.onDelegate && hooks.onDelegate(X, info);
              return [{ k: "ret", v: S("result", { label: "result", ty: { kind: "any", nullable: true } }), st: info.st }];
            }
            return hooks.onCall ? hooks.onCall(X, info) : null;
          },
        }),
      ));
      const st = new L.State();
      const outs = L.newInstance(I, st, cls, options(I, st)).filter((o) => R.ob(tag + ":constructed", o.k === "ret", "the constructor throws"));
      R.ob(tag + ":one-tracer", X.news === 1, `${X.news} tracers are created`);
      X.outs = outs;
      return X;
    };
    // ---- callbacks
    const ext = (cls.heritageClauses || []).find((h) => h.token === ts.SyntaxKind.ExtendsKeyword);
    const dt = () => {
      for (const sf of p.program.getSourceFiles()) {
        if (!/@ai-sdk\/otel\/dist\/index\.d\.ts$/.test(sf.fileName)) continue;
        const d = sf.statements.find((s) => ts.isClassDeclaration(s) && s.name && s.name.text === "OpenTelemetry");
        if (d) return d.members.filter((m) => ts.isMethodDeclaration(m) && !(m.modifiers || []).some((x) => x.kind === ts.SyntaxKind.PrivateKeyword)).map((m) => m.name.text);
      }
      return null;
    };
    const names = (dt() || ["executeTool", "executeLanguageModelCall", "onStart", "onObjectStepStart", "onObjectStepEnd", "onStepStart", "onLanguageModelCallStart", "onLanguageModelCallEnd", "onToolExecutionStart", "onToolExecutionEnd", "onStepEnd", "onEnd", "onEmbedStart", "onEmbedEnd", "onRerankStart", "onRerankEnd", "onAbort", "onError"]).filter((n) => n !== "onStepFinish");
    R.ob("callbacks", names.length >= 15, `only ${names.length} callbacks found`);
    for (const n of names) {
      const arg = n.startsWith("execute") ? null : S("event", { label: "event", ty: { kind: "any", nullable: true } });
      const X = mk(n, {
        onDelegate(X, info) {
          info.st.setFact("calls", (info.st.fact("calls") || 0) + 1);
          const w = where(X.I, info);
          R.ob(n + ":same", info.name === n, `${n} is forwarded to ${info.name}`, w);
          R.ob(n + ":args", info.args.length >= 1 && info.args[0] === X.arg, `${n} is forwarded with ${info.args.map(lab).join(", ")}`, w);
        },
      }, () => []);
      for (const c of X.outs) {
        if (ext && !X.I.findMember(cls, n)) {
          R.ob(n + ":inherited", true, "");
          continue;
        }
        if (!R.ob(n + ":exposed", X.I.findMember(cls, n) || (prop(c.st, c.v, n) && prop(c.st, c.v, n) !== UNDEF), `the integration does not implement ${n}`)) continue;
        X.arg = arg || L.mkObj(X.I, c.st, "params", { callId: C("c"), toolCallId: C("t"), execute: S("execute", { label: "execute", ty: FN, user: true }) });
        const outs = L.invoke(X.I, c.st, c.v, n, [X.arg], n);
        R.ob(n + ":returns", outs.length > 0, "the callback never returns");
        for (const o of outs) {
          R.ob(n + ":once", o.st.fact("calls") === 1, `${n} is forwarded ${o.st.fact("calls") || 0} times`);
          R.ob(n + ":no-throw", o.k === "ret", `${n} throws`);
          if (n.startsWith("execute") && o.k === "ret") for (const q of [o].concat(lab(o.v) === "result" ? [] : X.I.awaitVal(o.st, o.v, null, L.root))) if (q !== o || lab(o.v) === "result") R.ob(n + ":result", lab(q.v) === "result", `${n} returns ${lab(q.v)} instead of the delegate's result`);
        }
      }
      R.entry(n);
    }
    // ---- options
    for (const given of [true, false]) {
      const tr = S("tracer", { label: "tracer", ty: OBJ });
      const X = mk(given ? "tracer" : "no tracer", {}, (I, st) => (given ? [L.mkObj(I, st, "opts", { tracer: tr })] : []));
      if (X.args) R.ob("tracer:passed", given ? prop(X.st, X.args[0] || UNDEF, "tracer") === tr : ["undefined"].includes(lab(X.args[0] && prop(X.st, X.args[0], "tracer"))), "the tracer option is not passed on");
    }
    // ---- enrichment
    const J = (v) => S("json(" + v.key + ")", { label: "json", ty: STR, jsonOf: v });
    const md = (k) => `${E.OBSERVATION_METADATA}.${k}`;
    const enrich = (tag, spanType, ctx, want, { stringifyThrows } = {}) => {
      const X = mk(tag, {
        onCall(X, info) {
          if (info.callee.k === "bi" && info.callee.name === "JSON.stringify") {
            const a = info.args[0];
            if (a === X.bad) return [{ k: "throw", v: S("typeErr", { label: "TypeError", ty: OBJ, isError: true }), st: info.st }];
            if (a === X.fnv || a === UNDEF) return [{ k: "ret", v: UNDEF, st: info.st }];
            return [{ k: "ret", v: J(a), st: info.st }];
          }
          return null;
        },
      }, () => []);
      if (!X.args) return;
      let n = 0;
      for (const c of X.outs) {
        const f = X.args[0] && prop(c.st, X.args[0], "enrichSpan");
        if (!R.ob(tag + ":installed", f && f !== UNDEF, "no span enrichment is installed")) continue;
        X.bad = S("circular", { label: "circular", ty: OBJ });
        X.fnv = S("fnValue", { label: "function", ty: FN });
        const rc = ctx(X, X.I, c.st);
        const arg = L.mkObj(X.I, c.st, "earg", { spanType: C(spanType), ...(rc ? { runtimeContext: rc } : {}), operationId: C("op"), callId: C("c") });
        for (const o of X.I.call(c.st, f, UNDEF, [arg], null, L.root, "enrich", null)) {
          n++;
          if (!R.ob(tag + ":no-throw", o.k === "ret", "the enrichment throws")) continue;
          const r = single(o.v) && o.st.rec(single(o.v));
          if (!R.ob(tag + ":attributes", r && r.props && !r.open, `the enrichment returns ${lab(o.v)}`)) continue;
          const exp = want(X);
          for (const [k, v] of r.props) if (v !== UNDEF) R.ob(tag + ":unexpected", k in exp, `the span gets the attribute ${k} = ${lab(v)}`);
          for (const [k, v] of Object.entries(exp)) {
            const g = r.props.get(k);
            const ga = g && single(g);
            R.ob(tag + ":" + k, typeof v === "function" ? v(g) : v && v.json ? ga && ga.jsonOf === v.json : g === v, `the attribute ${k} is ${lab(g)}`);
          }
        }
      }
      R.ob(tag + ":reached", n > 0, "the enrichment never returns");
      R.entry("enrichSpan " + tag);
    };
    const MODEL = ["languageModel", "embedding", "reranking"];
    const types = [...MODEL, "operation", "step", "toolExecution"];
    const P = (o) => (X, I, st) => L.mkObj(I, st, "rc", { langfusePrompt: typeof o === "function" ? o(I, st) : L.mkObj(I, st, "pr", o), team: C("blue") });
    for (const t of types) {
      const linked = MODEL.includes(t) ? { [E.OBSERVATION_PROMPT_NAME]: C("greet"), [E.OBSERVATION_PROMPT_VERSION]: C(3) } : {};
      enrich(`${t}, no context`, t, () => null, () => ({}));
      enrich(`${t}, undefined context`, t, () => UNDEF, () => ({}));
      enrich(`${t}, empty context`, t, (X, I, st) => L.mkObj(I, st, "rc", {}), () => ({}));
      enrich(`${t}, prompt`, t, P({ name: C("greet"), version: C(3) }), () => ({ ...linked, [md("team")]: C("blue") }));
      enrich(`${t}, prompt version 0`, t, P({ name: C("greet"), version: C(0), isFallback: C(false) }), () => ({ ...(MODEL.includes(t) ? { [E.OBSERVATION_PROMPT_NAME]: C("greet"), [E.OBSERVATION_PROMPT_VERSION]: C(0) } : {}), [md("team")]: C("blue") }));
      enrich(`${t}, prompt client`, t, P({ name: C("greet"), version: C(3), isFallback: C(false), type: C("text"), prompt: C("hi") }), () => ({ ...linked, [md("team")]: C("blue") }));
      enrich(`${t}, fallback prompt`, t, P({ name: C("greet"), version: C(3), isFallback: C(true) }), () => ({ [md("team")]: C("blue") }));
      for (const [n, o] of Object.entries({ "no version": { name: C("greet") }, "no name": { version: C(3) }, "version string": { name: C("greet"), version: C("3") }, "name number": { name: C(1), version: C(3) } })) enrich(`${t}, prompt with ${n}`, t, P(o), () => ({ [md("team")]: C("blue") }));
      for (const [n, v] of Object.entries({ null: NULL, undefined: UNDEF, string: C("greet"), number: C(1) })) enrich(`${t}, prompt ${n}`, t, P(() => v), () => ({ [md("team")]: C("blue") }));
      enrich(`${t}, prompt array`, t, P((I, st) => L.mkArr(I, st, "pa", [C("greet"), C(3)])), () => ({ [md("team")]: C("blue") }));
      const vals = (X, I, st) => ({ s: C("text"), e: C(""), n: C(7), z: C(0), t: C(true), f: C(false), o: (X.o = L.mkObj(I, st, "val", { a: C(1) })), a: (X.a = L.mkArr(I, st, "vala", [C(1)])), nul: NULL, und: UNDEF, bad: X.bad, fn: X.fnv });
      enrich(`${t}, metadata`, t, (X, I, st) => L.mkObj(I, st, "rc", vals(X, I, st)), (X) => ({
        [md("s")]: C("text"), [md("e")]: C(""), [md("n")]: { json: C(7) }, [md("z")]: { json: C(0) }, [md("t")]: { json: C(true) }, [md("f")]: { json: C(false) }, [md("o")]: { json: X.o }, [md("a")]: { json: X.a }, [md("bad")]: (g) => isConst(g) && typeof constOf(g) === "string" }));
    }
    // several spans of one integration: none sees the context of another, and the contexts stay as they are
    {
      const PR = { name: "greet", version: 3 }, LK = { [E.OBSERVATION_PROMPT_NAME]: "greet", [E.OBSERVATION_PROMPT_VERSION]: 3 };
      const rcs = { A: { langfusePrompt: PR, team: "blue", n: 1 }, B: { team: "red" }, N: undefined };
      const base = { A: { [md("team")]: "blue", [md("n")]: "1" }, B: { [md("team")]: "red" }, N: {} };
      const steps = [["operation", "A"], ["languageModel", "A"], ["step", "N"], ["languageModel", "N"], ["languageModel", "B"], ["embedding", "A"], ["toolExecution", "B"], ["reranking", "A"]];
      const X = mk("several spans", {}, () => []);
      for (const c of X.args ? X.outs : []) {
        const f = prop(c.st, X.args[0] || UNDEF, "enrichSpan");
        const vs = Object.fromEntries(Object.entries(rcs).map(([k, v]) => [k, v ? konst(X.I, c.st, "rc" + k, v) : UNDEF]));
        let cur = [c.st];
        steps.forEach(([t, k], i) => {
          const tag = `several spans:${i + 1} ${t} ${k}`;
          cur = cur.flatMap((s) => {
            const arg = L.mkObj(X.I, s, "earg" + i, { spanType: C(t), ...(k === "N" ? {} : { runtimeContext: vs[k] }), operationId: C("op"), callId: C("c") });
            return X.I.call(s, f, UNDEF, [arg], null, L.root, "enrich" + i, null).map((o) => {
              const got = o.k === "ret" ? readConst(o.st, o.v) : "an error";
              const want = { ...base[k], ...(k === "A" && MODEL.includes(t) ? LK : {}) };
              R.ob(tag + ":attributes", canon(got) === canon(want), `the span gets ${canon(got)}, expected ${canon(want)}`);
              for (const [n, v] of Object.entries(rcs)) if (v) R.ob(tag + ":context-kept", canon(readConst(o.st, vs[n])) === canon(v), `the runtime context becomes ${canon(readConst(o.st, vs[n]))}`);
              return o.st;
            });
          });
          R.ob(tag + ":reached", cur.length > 0, "the enrichment never returns");
        });
      }
      R.entry("enrichSpan of several spans");
    }
  },
};
