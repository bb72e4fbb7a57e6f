"use strict";
const { L, V, prop, where, isProcCall, mkSpan, boundMatch, stubUpload, mediaNew, fireTimers } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
const ENV = ["LANGFUSE_PUBLIC_KEY", "LANGFUSE_SECRET_KEY", "LANGFUSE_BASE_URL", "LANGFUSE_BASEURL", "LANGFUSE_TIMEOUT", "LANGFUSE_FLUSH_AT", "LANGFUSE_FLUSH_INTERVAL", "LANGFUSE_MEDIA_UPLOAD_ENABLED", "LANGFUSE_LOG_LEVEL", "LANGFUSE_DEBUG", "LANGFUSE_RELEASE", "LANGFUSE_TRACING_ENVIRONMENT"];
const PARAM = { publicKey: "pk-param", secretKey: "sk-param", baseUrl: "https://param.example", flushAt: 3, flushInterval: 7, environment: "env-param", release: "rel-param", timeout: 11, mediaUploadEnabled: false };
const ENVV = { LANGFUSE_PUBLIC_KEY: "pk-env", LANGFUSE_SECRET_KEY: "sk-env", LANGFUSE_BASE_URL: "https://env.example", LANGFUSE_BASEURL: "https://legacy.example", LANGFUSE_TIMEOUT: "13", LANGFUSE_FLUSH_AT: "5", LANGFUSE_FLUSH_INTERVAL: "17", LANGFUSE_MEDIA_UPLOAD_ENABLED: "true", LANGFUSE_RELEASE: "rel-env", LANGFUSE_TRACING_ENVIRONMENT: "env-env" };
const OF = { publicKey: ["LANGFUSE_PUBLIC_KEY"], secretKey: ["LANGFUSE_SECRET_KEY"], baseUrl: ["LANGFUSE_BASE_URL", "LANGFUSE_BASEURL"], flushAt: ["LANGFUSE_FLUSH_AT"], flushInterval: ["LANGFUSE_FLUSH_INTERVAL"], environment: ["LANGFUSE_TRACING_ENVIRONMENT"], release: ["LANGFUSE_RELEASE"], timeout: ["LANGFUSE_TIMEOUT"], mediaUploadEnabled: ["LANGFUSE_MEDIA_UPLOAD_ENABLED"] };
const DEF = { baseUrl: "https://cloud.langfuse.com", timeout: 5, mediaUploadEnabled: true };
const without = (o, ks) => Object.fromEntries(Object.entries(o).filter(([k]) => !ks.includes(k)));
const pick = (o, ks) => Object.fromEntries(Object.entries(o).filter(([k]) => ks.includes(k)));
// the value an option must take: parameter, else environment (first variable set), else default
const eff = (params, env, o) => (params[o] !== undefined ? params[o] : OF[o].map((k) => env[k]).find((x) => x !== undefined) ?? DEF[o]);
function envOf(env) {
  const m = {};
  for (const k of ENV) m[k] = env[k] === undefined ? UNDEF : C(env[k]);
  return m;
}
const stubs = (node, info) => {
  if (L.fnNameOf(node) === "base64Encode" && info) return isConst(info.args[0]) ? C("b64(" + constOf(info.args[0]) + ")") : S("b64(" + info.args[0].key + ")", { label: `b64(${lab(info.args[0])})`, ty: { kind: "string", nullable: false } });
  // nothing is propagated: propagated attributes are decided by P26-P31
  const n = L.fnNameOf(node);
  if (info && n === "getPropagatedAttributesFromContext") return L.mkObj(info.interp, info.st, "noattrs", {});
  if (info && n === "getLangfuseTraceIdFromBaggage") return UNDEF;
  if (info && n === "generateUUID") {
    const k = (info.st.fact("uuids") || 0) + 1;
    info.st.setFact("uuids", k);
    return C("uuid" + k);
  }
  return null;
};
const combos = () => {
  const out = [["nothing", {}, {}], ["parameters", PARAM, {}], ["environment", {}, ENVV], ["both", PARAM, ENVV]];
  for (const o of Object.keys(PARAM)) out.push([`parameter ${o}, environment`, pick(PARAM, [o]), ENVV], [`parameters without ${o}`, without(PARAM, [o]), ENVV], [`environment without ${o}`, {}, without(ENVV, OF[o])]);
  out.push(["legacy base URL", {}, without(ENVV, ["LANGFUSE_BASE_URL"])]);
  for (const v of ["false", "False", "FALSE", "0", "true", "1", "TRUE"]) out.push([`media upload ${v}`, {}, { ...ENVV, LANGFUSE_MEDIA_UPLOAD_ENABLED: v }]);
  out.push(["media upload on by parameter", { mediaUploadEnabled: true }, { ...ENVV, LANGFUSE_MEDIA_UPLOAD_ENABLED: "false" }]);
  out.push(["timeout 0 by parameter", { ...PARAM, timeout: 0 }, ENVV], ["timeout 0 by parameter alone", { timeout: 0 }, {}]);
  out.push(["emptied by parameter", { environment: "", release: "" }, ENVV]);
  return out;
};
module.exports = {
  id: "P42",
  title: "configuration: parameter over environment over default, and it reaches the component it configures",
  rule: "For every option of LangfuseSpanProcessor and LangfuseClient, given as parameter, as environment variable, as both or not at all, alone or with the other options: the exporter, the batch processor, the API client, the attributes of every started span, the score queue and media handling get the parameter, else the environment variable, else the default, in the right unit; a custom exporter is used as given; additional headers reach both HTTP clients, which name the SDK and its version",
  assumptions: ["options are non-empty constants (numbers for numeric options), chosen distinct per source"],
  min: 400,
  run(p, R) {
    const K = (v) => (isConst(v) ? constOf(v) : v === undefined ? undefined : lab(v));
    const apiOb = (tag, st, o, params, env, w, hdr) => {
      if (!R.ob(tag + ":api", o && st.rec(single(o)), "the API client gets no options", w)) return;
      const g = (k) => K(prop(st, o, k));
      const e = (k) => eff(params, env, k);
      R.ob(tag + ":api-url", g("baseUrl") === e("baseUrl"), `the API client uses ${g("baseUrl")} instead of ${e("baseUrl")}`, w);
      R.ob(tag + ":api-user", g("username") === e("publicKey"), `the API client authenticates with ${g("username")} instead of ${e("publicKey")}`, w);
      R.ob(tag + ":api-password", g("password") === e("secretKey"), "the API client does not authenticate with the configured secret key", w);
      R.ob(tag + ":api-public-key", g("xLangfusePublicKey") === e("publicKey"), `the API client names the public key ${g("xLangfusePublicKey")}`, w);
      R.ob(tag + ":api-sdk", g("xLangfuseSdkName") === "javascript" && /version|^\d+\.\d+/i.test(g("xLangfuseSdkVersion")), `the API client names the SDK ${g("xLangfuseSdkName")} ${g("xLangfuseSdkVersion")}`, w);
      R.ob(tag + ":api-headers", hdr ? prop(st, o, "headers") === hdr || lab(prop(st, prop(st, o, "headers") || UNDEF, "X-Mine")) === "mine" : true, "the additional headers do not reach the API client", w);
    };
    // ---- span processor
    const proc = (tag, params, env, { custom, headers, mode } = {}) => {
      let I, media = false, exported = false;
      const seen = {};
      const set = (k, v) => (seen[k] = (seen[k] || []).concat([v]));
      const cls = L.findClass(p, "otel", "LangfuseSpanProcessor");
      let hdr, sp;
      I = R.use(
        L.mkInterp(p, {
          env: envOf(env),
          debugEnabled: false,
          opts: { K: 24, stringifyThrows: false },
          stub(node, info) {
            return stubs(node, info) || stubUpload()(node, info);
          },
          onApiClient: (info) => set("api", { st: info.st.clone(), o: info.args[0], w: where(I, info) }),
          onNew(info) {
            const n = (info.callee.name || info.label || info.callee.label || info.name || "").replace(/^.*[:.]/, "");
            if (/^OTLPTraceExporter$|^BatchSpanProcessor$|^SimpleSpanProcessor$/.test(n)) {
              set(n, { st: info.st.clone(), a: info.args, w: where(I, info) });
              if (n === "OTLPTraceExporter") return S(n, { label: n, ty: OBJ });
            }
            return mediaNew(() => (media = true))(info);
          },
          onCall(info) {
            const bm = boundMatch(info, 1);
            if (bm) return bm;
            if (info.name === "spanContext") return L.mkObj(I, info.st, "sc", { traceId: L.symStr("traceId"), spanId: L.symStr("spanId") });
            if (info.name === "setAttributes" && info.thisV === sp) set("attrs", { st: info.st.clone(), a: info.args[0], w: where(I, info) });
            if (info.name === "setAttribute" && info.thisV === sp && isConst(info.args[0])) set("attr", { k: constOf(info.args[0]), v: info.args[1] });
            if (isProcCall(info, "onEnd")) exported = true;
            return null;
          },
        }),
      );
      const st = new L.State();
      const ps = Object.fromEntries(Object.entries(params).map(([k, v]) => [k, C(v)]));
      if (custom) ps.exporter = S("customExporter", { label: "customExporter", ty: OBJ });
      if (headers) ps.additionalHeaders = hdr = L.mkObj(I, st, "hdrs", { "X-Mine": S("mine", { label: "mine", ty: { kind: "string", nullable: false } }) });
      if (mode) ps.exportMode = C(mode);
      const none = !Object.keys(ps).length;
      const outs = L.newInstance(I, st, cls, none ? [] : [L.mkObj(I, st, "params", ps)]);
      R.entry("new LangfuseSpanProcessor " + tag);
      const e = (k) => eff(params, env, k);
      R.ob(tag + ":constructed", outs.length && outs.every((o) => o.k === "ret"), "the constructor throws");
      for (const a of seen.api || []) apiOb(tag, a.st, a.o, params, env, a.w, hdr);
      R.ob(tag + ":api-client", (seen.api || []).length >= 1, "no API client is made");
      const ex = seen.OTLPTraceExporter || [];
      R.ob(tag + ":one-exporter", ex.length === (custom ? 0 : 1), `${ex.length} exporters are made`);
      for (const x of ex) {
        const o = x.a[0] || UNDEF, h = prop(x.st, o, "headers") || UNDEF;
        // header names are case-insensitive
        const hr = x.st.rec(single(h));
        const hd = (k) => (hr && hr.props ? [...hr.props].filter(([n]) => n.toLowerCase() === k.toLowerCase()).map(([, v]) => v)[0] : undefined);
        R.ob(tag + ":url", K(prop(x.st, o, "url")) === e("baseUrl") + "/api/public/otel/v1/traces", `spans are sent to ${lab(prop(x.st, o, "url"))}`, x.w);
        if (e("publicKey") && e("secretKey")) R.ob(tag + ":auth", K(hd("Authorization")) === `Basic b64(${e("publicKey")}:${e("secretKey")})`, `the exporter's Authorization header is ${lab(hd("Authorization"))}`, x.w);
        if (e("publicKey")) R.ob(tag + ":public-key", K(hd("x-langfuse-public-key")) === e("publicKey"), `the exporter names the public key ${lab(hd("x-langfuse-public-key"))}`, x.w);
        R.ob(tag + ":sdk", K(hd("x-langfuse-sdk-name")) === "javascript" && /version|^\d+\.\d+/i.test(K(hd("x-langfuse-sdk-version"))), `the exporter names the SDK ${lab(hd("x-langfuse-sdk-name"))} ${lab(hd("x-langfuse-sdk-version"))}`, x.w);
        if (headers) R.ob(tag + ":headers", lab(hd("X-Mine")) === "mine", "the additional headers do not reach the exporter", x.w);
        R.ob(tag + ":timeout", K(prop(x.st, o, "timeoutMillis")) === Number(e("timeout")) * 1000, `the exporter's timeout is ${lab(prop(x.st, o, "timeoutMillis"))} ms instead of ${e("timeout")} s`, x.w);
      }
      const b = seen.BatchSpanProcessor || [], s = seen.SimpleSpanProcessor || [];
      R.ob(tag + ":mode", mode === "immediate" ? s.length === 1 && !b.length : b.length === 1 && !s.length, `export mode ${mode || "batched"} is not honoured`);
      for (const x of b.concat(s)) R.ob(tag + ":exporter-used", custom ? x.a[0] === ps.exporter : lab(x.a[0]) === "OTLPTraceExporter", `spans go to ${lab(x.a[0])}`, x.w);
      for (const x of b) {
        const o = x.a[1] || UNDEF;
        const num = (v, f) => (v === undefined ? undefined : Number(v) * f);
        R.ob(tag + ":batch-size", K(prop(x.st, o, "maxExportBatchSize")) === num(e("flushAt"), 1), `the batch size is ${lab(prop(x.st, o, "maxExportBatchSize"))} instead of ${e("flushAt")}`, x.w);
        R.ob(tag + ":delay", K(prop(x.st, o, "scheduledDelayMillis")) === num(e("flushInterval"), 1000), `the flush interval is ${lab(prop(x.st, o, "scheduledDelayMillis"))} ms instead of ${e("flushInterval")} s`, x.w);
      }
      const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
      for (const c of outs) {
        if (c.k !== "ret") continue;
        // environment and release on every started span
        sp = mkSpan(I, c.st, "span", {}, [], { openAttrs: false });
        seen.attrs = [];
        seen.attr = [];
        const started = L.invoke(I, c.st, c.v, "onStart", [sp, S("pctx", { label: "parentContext", ty: OBJ })], "start");
        const val = (k) => {
          const r = [];
          for (const a of seen.attrs) {
            const v = prop(a.st, a.a, k);
            if (v !== undefined) r.push(v);
          }
          for (const a of seen.attr) if (a.k === k) r.push(a.v);
          return r;
        };
        for (const [o, k] of [["environment", E.ENVIRONMENT], ["release", E.RELEASE]]) {
          const vs = val(k);
          R.ob(`${tag}:${o}`, (e(o) === undefined ? true : vs.length > 0) && vs.every((v) => K(v) === e(o)), `a started span's ${o} is ${vs.map(lab).join("/") || "not set"} instead of ${e(o)}`);
        }
        R.ob(tag + ":started", started.some((o) => o.k === "ret"), "onStart throws");
        // media handling
        for (const o of started) {
          if (o.k !== "ret") continue;
          const m = mkSpan(I, o.st, "mspan", { [E.OBSERVATION_INPUT]: L.symStr("raw") }, [], { props: { instrumentationScope: L.mkObj(I, o.st, "scope", { name: C("langfuse-sdk") }) } });
          media = false;
          exported = false;
          for (const q of L.invoke(I, o.st, c.v, "onEnd", [m], "end")) I.drain(q.st, L.root);
          R.ob(tag + ":exported", exported, "an ended span is not exported");
          const want = !["false", "0"].includes(String(e("mediaUploadEnabled")).toLowerCase());
          R.ob(tag + ":media", media === want, `media handling is ${media ? "on" : "off"} instead of ${want ? "on" : "off"}`);
          break;
        }
        break;
      }
    };
    for (const [n, ps, en] of combos()) proc("processor, " + n, ps, en);
    proc("processor, custom exporter", PARAM, ENVV, { custom: true });
    proc("processor, custom exporter only", {}, {}, { custom: true });
    proc("processor, custom exporter, immediate", PARAM, ENVV, { custom: true, mode: "immediate" });
    proc("processor, immediate", PARAM, ENVV, { mode: "immediate" });
    proc("processor, batched", PARAM, ENVV, { mode: "batched" });
    proc("processor, headers", PARAM, ENVV, { headers: true });
    // ---- client
    const client = (tag, params, env, { headers } = {}) => {
      let I, hdr;
      const api = [];
      const cls = L.findClass(p, "client", "LangfuseClient");
      const delays = [];
      let sent = [];
      I = R.use(
        L.mkInterp(p, {
          env: envOf(env),
          debugEnabled: false,
          opts: { K: 24, stringifyThrows: false, maxElems: 60 },
          stub: stubs,
          onApiClient: (info) => api.push({ st: info.st.clone(), o: info.args[0], w: where(I, info) }),
          onCall(info) {
            if (info.callee.k === "bi" && info.callee.name === "setTimeout") {
              delays.push(info.args[1]);
              return [{ k: "ret", v: C(delays.length), st: info.st }];
            }
            return null;
          },
          onApi(info) {
            const b = single(info.args[0] || UNDEF) && info.st.rec(single(info.args[0])) && prop(info.st, info.args[0], "batch");
            const r = b && info.st.rec(single(b));
            if (r && r.elems) sent.push({ n: r.elems.length, envs: r.elems.map((x) => prop(info.st, prop(info.st, x.v, "body") || UNDEF, "environment")) });
            return null;
          },
        }),
      );
      const st = new L.State();
      const ps = Object.fromEntries(Object.entries(pick(params, ["publicKey", "secretKey", "baseUrl", "timeout"])).map(([k, v]) => [k, C(v)]));
      if (headers) ps.additionalHeaders = hdr = L.mkObj(I, st, "hdrs", { "X-Mine": S("mine", { label: "mine", ty: { kind: "string", nullable: false } }) });
      const outs = L.newInstance(I, st, cls, Object.keys(ps).length ? [L.mkObj(I, st, "params", ps)] : []);
      R.entry("new LangfuseClient " + tag);
      R.ob(tag + ":constructed", outs.length && outs.every((o) => o.k === "ret"), "the constructor throws");
      R.ob(tag + ":api-client", api.length >= 1, "no API client is made");
      for (const a of api) {
        apiOb(tag, a.st, a.o, params, env, a.w, hdr);
        const t = Number(eff(params, env, "timeout"));
        const opts = a.st.rec(single(a.o));
        if (t !== DEF.timeout) R.ob("client-timeout:honoured", opts && [...opts.props.values()].some((v) => isConst(v) && (constOf(v) === t || constOf(v) === t * 1000)), `the configured request timeout (${t} s) does not reach the API client`, a.w);
      }
      const at = Number(env.LANGFUSE_FLUSH_AT ?? 10), iv = Number(env.LANGFUSE_FLUSH_INTERVAL ?? 1);
      for (const c of outs) {
        if (c.k !== "ret") continue;
        const mgr = prop(c.st, c.v, "score");
        let sts = [c.st];
        const given = [undefined, "given"];
        for (let i = 0; i < at; i++) {
          if (i === at - 1) R.ob(tag + ":not-early", sent.length === 0, `scores are sent after ${i} scores although the batch size is ${at}`);
          sts = sts.flatMap((s) => L.invoke(I, s, mgr, "create", [L.mkObj(I, s, "d" + i, { name: C("n" + i), value: C(1), traceId: C("t"), ...(given[i] ? { environment: C(given[i]) } : {}) })], "c" + i).map((o) => o.st));
          R.ob(tag + ":no-fork", sts.length === 1, "creating a score has several outcomes");
        }
        for (const s of sts) I.drain(s, L.root);
        R.ob(tag + ":batch-size", sent.length && sent[0].n === at, `the ${at} queued scores are not sent at the configured batch size`);
        R.ob(tag + ":interval", delays.length && delays.every((d) => K(d) === iv * 1000), `the score flush interval is ${delays.map(lab).join("/")} ms instead of ${iv} s`);
        if (sent.length) sent[0].envs.forEach((v, i) => R.ob(tag + ":environment", K(v || UNDEF) === (given[i] ?? env.LANGFUSE_TRACING_ENVIRONMENT), `score ${i} has environment ${lab(v)}`));
        break;
      }
    };
    for (const [n, ps, en] of combos()) client("client, " + n, ps, en);
    client("client, headers", PARAM, ENVV, { headers: true });
  },
};
