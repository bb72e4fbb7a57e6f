"use strict";
const { L, V, prop, where, deepTaint, mkSpan, boundMatch, stubUpload, mediaNew, fireTimers } = require("./_common.js");
const { endpoints, callEndpoint } = require("./_api.js");
const { runFetcher } = require("./_http.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const STR = { kind: "string", nullable: false };
const secret = (id = "secretKey") => S(id, { label: id, ty: STR, taint: ["secret"] });
const leaks = (st, v) => deepTaint(st, v).filter((x) => x.t === "secret");
const isB64 = (node, info) => L.fnNameOf(node) === "base64Encode" && info && S("b64(" + info.args[0].key + ")", { label: "base64", ty: STR, taint: V.taintOf(info.args[0]) });
module.exports = {
  id: "P43",
  title: "the secret key is only ever sent as Basic credentials",
  rule: "A taint analysis follows the secret key (parameter and environment variable) from the constructors of LangfuseSpanProcessor, LangfuseClient and LangfuseAPIClient and through every REST endpoint and the HTTP layer: it reaches the Authorization header (base64 of public and secret key) and the API client's password, and no log line (debug level included), URL, query parameter, body, other header, span attribute, result or error",
  assumptions: ["the logger, the OTLP exporter and fetch are external"],
  min: 300,
  run(p, R) {
    const sink = (tag, info) => {
      if (info.callee.k === "bi" && /^console\./.test(info.callee.name)) for (const a of info.args) R.ob(tag + ":console", !leaks(info.st, a).length, "the secret key is written to the console", where(info.interp, info));
      return null;
    };
    const base = (tag, X, extra = {}) => ({
      envTaint: (k) => (k === "LANGFUSE_SECRET_KEY" ? ["secret"] : []),
      env: Object.fromEntries(["BASE_URL", "BASEURL", "TIMEOUT", "FLUSH_AT", "FLUSH_INTERVAL", "MEDIA_UPLOAD_ENABLED", "RELEASE", "TRACING_ENVIRONMENT"].map((k) => ["LANGFUSE_" + k, UNDEF])),
      debugEnabled: true,
      opts: { K: 24, stringifyThrows: false, taintThroughExt: true, maxElems: 40 },
      stub: (node, info) => isB64(node, info) || (extra.stub ? extra.stub(node, info) : null),
      onLog(info, n) {
        X.logs = (X.logs || 0) + 1;
        for (const a of info.args) {
          const l = leaks(info.st, a);
          R.ob(tag + ":log", !l.length, `the secret key is logged by ${n}() (${l.map((x) => x.path || "argument").join(", ")})`, where(X.I, info));
        }
      },
      onApiClient(info) {
        X.api = (X.api || 0) + 1;
        const r = info.st.rec(single(info.args[0]));
        if (!R.ob(tag + ":api-options", r && r.props, "the API client's options are unknown", where(X.I, info))) return;
        for (const [k, v] of r.props) if (k !== "password") R.ob(`${tag}:api-option-${k}`, !leaks(info.st, v).length, `the secret key is the API client's ${k}`, where(X.I, info));
        R.ob(tag + ":api-password", leaks(info.st, r.props.get("password") || UNDEF).length, "the API client has no password", where(X.I, info));
      },
      onNew(info) {
        const n = (info.callee.name || info.label || info.callee.label || "").replace(/^.*[:.]/, "");
        if (n === "OTLPTraceExporter") {
          X.exp = (X.exp || 0) + 1;
          const o = info.args[0] && info.st.rec(single(info.args[0]));
          const h = o && o.props.get("headers") && info.st.rec(single(o.props.get("headers")));
          if (!R.ob(tag + ":exporter-options", o && o.props && h && h.props, "the exporter's options are unknown", where(X.I, info))) return null;
          for (const [k, v] of o.props) if (k !== "headers") R.ob(`${tag}:exporter-${k}`, !leaks(info.st, v).length, `the secret key is in the exporter's ${k}`, where(X.I, info));
          for (const [k, v] of h.props)
            if (k.toLowerCase() === "authorization") R.ob(tag + ":exporter-auth", /^Basic /.test(L.labelsOf(v)) && leaks(info.st, v).length && !V.single(v).parts.some((q) => typeof q !== "string" && single(q) && /^secretKey$|^env\./.test(single(q).id || "")), "the exporter's Authorization header is not Basic base64 of the credentials", where(X.I, info));
            else R.ob(`${tag}:exporter-header-${k}`, !leaks(info.st, v).length, `the secret key is sent as header ${k}`, where(X.I, info));
          return S("OTLPTraceExporter", { label: "OTLPTraceExporter", ty: OBJ });
        }
        return extra.onNew ? extra.onNew(info) : null;
      },
      onCall(info) {
        const nm = info.callee.k === "bi" ? info.callee.name : "";
        if (/^console\./.test(nm)) for (const a of info.args) R.ob(tag + ":console", !leaks(info.st, a).length, "the secret key is written to the console", where(X.I, info));
        if (/^setAttributes?$|^addEvent$|^recordException$|^setStatus$|^updateName$/.test(info.name || "")) for (const a of info.args) R.ob(tag + ":attribute", !leaks(info.st, a).length, `the secret key is passed to the span's ${info.name}()`, where(X.I, info));
        if (nm === "fetch") for (const a of info.args) R.ob(tag + ":fetch", !leaks(info.st, a).length, "the secret key is sent outside of the API client", where(X.I, info));
        return extra.onCall ? extra.onCall(info) : null;
      },
      onApi(info) {
        for (const a of info.args) R.ob(tag + ":api-argument", !leaks(info.st, a).length, `the secret key is an argument of the API call ${info.name}`, where(X.I, info));
        return null;
      },
    });
    // ---- span processor, with the key as parameter and from the environment
    for (const src of ["parameter", "environment"])
      for (const media of [true, false]) {
        const X = {};
        const tag = `processor, ${src}${media ? "" : ", no media"}`;
        let ended = false, done = 0;
        const I = (X.I = R.use(
          L.mkInterp(p, base(tag, X, {
            stub: stubUpload(),
            onNew: mediaNew(),
            onCall(info) {
              const bm = boundMatch(info, 1);
              if (bm) return bm;
              if (info.name === "spanContext") return L.mkObj(I, info.st, "sc", { traceId: L.symStr("traceId"), spanId: L.symStr("spanId") });
              if (info.name === "onEnd") {
                ended = true;
                const at = prop(info.st, info.args[0], "attributes");
                if (at) R.ob(tag + ":exported", !leaks(info.st, at).length, "the secret key is an attribute of an exported span", where(I, info));
              }
              return null;
            },
          })),
        ));
        const st = new L.State();
        const ps = { mediaUploadEnabled: C(media), publicKey: src === "parameter" ? L.symStr("publicKey") : UNDEF, shouldExportSpan: S("should", { label: "shouldExportSpan", ty: { kind: "function", nullable: true } }), mask: UNDEF };
        if (src === "parameter") ps.secretKey = secret();
        for (const c of L.newInstance(I, st, L.findClass(p, "otel", "LangfuseSpanProcessor"), [L.mkObj(I, st, "params", ps)])) {
          if (c.k !== "ret") {
            R.ob(tag + ":throws", !leaks(c.st, c.v).length, "the secret key is in a thrown error");
            continue;
          }
          const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
          const sp = mkSpan(I, c.st, "span", { [E.OBSERVATION_INPUT]: L.symStr("raw") });
          if (done++ > 1) continue;
          for (const o of L.invoke(I, c.st, c.v, "onStart", [sp, S("pctx", { label: "parentContext", ty: OBJ })], "start").slice(0, 4))
            for (const q of L.invoke(I, o.st, c.v, "onEnd", [sp], "end").slice(0, 4))
              for (const z of L.invoke(I, q.st, c.v, "shutdown", [], "shut").slice(0, 2)) I.drain(z.st, L.root);
        }
        R.ob(tag + ":reached", X.api && X.exp && X.logs && ended, "the constructor and handlers were not analysed");
        R.entry("LangfuseSpanProcessor " + tag);
      }
    // ---- client
    for (const src of ["parameter", "environment"]) {
      const X = {};
      const tag = `client, ${src}`;
      const I = (X.I = R.use(L.mkInterp(p, base(tag, X))));
      const st = new L.State();
      const ps = src === "parameter" ? { publicKey: L.symStr("publicKey"), baseUrl: L.symStr("baseUrl") } : {};
      if (src === "parameter") ps.secretKey = secret();
      for (const c of L.newInstance(I, st, L.findClass(p, "client", "LangfuseClient"), [L.mkObj(I, st, "params", ps)])) {
        if (c.k !== "ret") continue;
        const mgr = prop(c.st, c.v, "score");
        for (const o of L.invoke(I, c.st, mgr, "create", [L.mkObj(I, c.st, "d", { name: C("n"), value: C(1), traceId: C("t") })], "cr").slice(0, 4)) for (const z of L.invoke(I, o.st, c.v, "shutdown", [], "shut").slice(0, 2)) I.drain(z.st, L.root);
        for (const o of L.invoke(I, c.st, c.v, "getTraceUrl", [C("t")], "url").slice(0, 4)) for (const z of I.awaitVal(o.st, o.v, null, L.root)) R.ob(tag + ":trace-url", !leaks(z.st, z.v).length, "the secret key is in a trace URL");
      }
      R.ob(tag + ":reached", X.api && X.logs, "the constructor was not analysed");
      R.entry("LangfuseClient " + tag);
    }
    // ---- REST endpoints
    const raw = S("raw", { label: "raw response", ty: OBJ });
    for (const ep of endpoints(p)) {
      const tag = "rest " + ep.id;
      let reqs = 0;
      const X = callEndpoint(p, R, ep, {
        present: true,
        onCall: (info) => sink(tag, info),
        options(I, st) {
          for (const n of ["pk", "base"]) I.addRefine(st, single(L.symStr(n)), { t: true });
          I.addRefine(st, single(secret()), { t: true });
          return L.mkObj(I, st, "options", { environment: C(""), baseUrl: L.symStr("base"), username: L.symStr("pk"), password: secret(), xLangfusePublicKey: L.symStr("pk"), xLangfuseSdkName: C("javascript"), xLangfuseSdkVersion: C("1") });
        },
        stub(node, info) {
          const b = isB64(node, info);
          if (b) return b;
          if (/core\/url\/join\.ts$/.test(node.getSourceFile().fileName) && L.fnNameOf(node) === "join") return S("url", { label: "url", ty: STR, taint: info.args.flatMap((a) => deepTaint(info.st, a).map((x) => x.t)) });
          return null;
        },
        respond: (I) => [
          { name: "ok", mk: (s) => L.mkObj(I, s, "r1", { ok: C(true), body: S("body", { label: "body", ty: OBJ }), rawResponse: raw }) },
          { name: "timeout", mk: (s) => L.mkObj(I, s, "r2", { ok: C(false), error: L.mkObj(I, s, "e2", { reason: C("timeout") }), rawResponse: raw }) },
          { name: "unknown", mk: (s) => L.mkObj(I, s, "r3", { ok: C(false), error: L.mkObj(I, s, "e3", { reason: C("unknown"), errorMessage: C("m") }), rawResponse: raw }) },
          { name: "401", mk: (s) => L.mkObj(I, s, "r4", { ok: C(false), error: L.mkObj(I, s, "e4", { reason: C("status-code"), statusCode: C(401), body: S("body") }), rawResponse: raw }) },
          { name: "500", mk: (s) => L.mkObj(I, s, "r5", { ok: C(false), error: L.mkObj(I, s, "e5", { reason: C("status-code"), statusCode: C(500), body: S("body") }), rawResponse: raw }) },
        ],
        onFetch(info, a) {
          reqs++;
          const r = info.st.rec(single(a));
          const h = r && r.props.get("headers") && info.st.rec(single(r.props.get("headers")));
          if (!R.ob(tag + ":request", r && r.props && h && h.props, "the request is unknown")) return;
          for (const [k, v] of r.props) if (k !== "headers") R.ob(`${tag}:${k}`, !leaks(info.st, v).length, `the secret key is in the request's ${k}`);
          for (const [k, v] of h.props) {
            const l = leaks(info.st, v);
            if (k.toLowerCase() === "authorization") R.ob(tag + ":auth", l.length, "the request is not authenticated");
            else R.ob(`${tag}:header-${k}`, !l.length, `the secret key is sent as header ${k}`);
          }
        },
      });
      for (const q of X.outs) R.ob(tag + ":result", !leaks(q.st, q.v).length, `the secret key is in the ${q.k === "ret" ? "result" : "error"} of the call`);
      R.ob(tag + ":reached", reqs > 0 && X.outs.length > 0, "no request is made");
      R.entry(tag);
    }
    // ---- HTTP layer: the header goes to fetch and nowhere else
    const TMO = C(7777);
    const scripts = { ok: () => ({ status: 200 }), html: () => ({ status: 200, body: "bad" }), 401: () => ({ status: 401 }), "500 then ok": (n) => ({ status: n === 1 ? 500 : 200 }), rejected: () => ({ reject: () => S("netErr", { label: "netErr", ty: OBJ }) }), timeout: () => ({ timeout: true }) };
    for (const [n, script] of Object.entries(scripts)) {
      const tag = "http " + n;
      let fetched = 0;
      const X = runFetcher(p, R, tag, {
        args: (I, st) => ({ url: C("https://h.example/x"), method: C("POST"), headers: L.mkObj(I, st, "fh", { Authorization: secret("authHeader"), "X-A": C("a") }), queryParameters: L.mkObj(I, st, "fq", { q: C("1") }), body: L.mkObj(I, st, "fb", { a: C(1) }), requestType: C("json"), contentType: C("application/json"), timeoutMs: TMO, maxRetries: C(1) }),
        timeoutMs: TMO,
        onAnyCall: (info) => sink(tag, info),
        script,
        onFetch({ I, info, url, init, st }) {
          fetched++;
          R.ob(tag + ":url", !leaks(st, url).length, "the credentials are in the URL", where(I, info));
          const r = st.rec(single(init));
          for (const [k, v] of r.props) {
            if (k === "headers" && single(v) && st.rec(single(v)) && st.rec(single(v)).props) {
              for (const [hk, hv] of st.rec(single(v)).props) if (hk.toLowerCase() !== "authorization") R.ob(tag + ":header", !leaks(st, hv).length, `the credentials are sent as header ${hk}`);
            } else R.ob(`${tag}:init-${k}`, !leaks(st, v).length, `the credentials are in the request's ${k}`);
          }
        },
      });
      for (const q of X.outs) R.ob(tag + ":result", !leaks(q.st, q.v).length, "the credentials are in the result");
      R.ob(tag + ":reached", fetched > 0 && X.outs.length > 0, "the request never settles");
      R.entry(tag);
    }
  },
};
