"use strict";
const { L, V, prop, where, deepTaint } = require("./_common.js");
const { endpoints, callEndpoint } = require("./_api.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
// path template of an abstract string: constants verbatim, encodeURIComponent(x) as {x}; null if something else occurs
function template(v) {
  if (isConst(v)) return String(constOf(v));
  const a = single(v);
  if (!a || a.k !== "str") return encoded(v);
  let out = "";
  for (const q of a.parts) {
    if (typeof q === "string") out += q;
    else {
      const e = encoded(q);
      if (!e) return null;
      out += e;
    }
  }
  return out;
}
function encoded(v) {
  const a = v && single(v);
  if (!a || a.k !== "sym" || a.op !== "encodeURIComponent") return null;
  const x = single(a.args[0]);
  return x && x.k === "sym" ? "{" + (x.label || x.id) + "}" : null;
}
const b64 = (v) => S("b64(" + v.key + ")", { label: "base64(" + L.labelsOf(v) + ")", ty: { kind: "string", nullable: false } });
module.exports = {
  id: "P32",
  title: "every REST call is one authenticated request to its own endpoint with all its arguments",
  rule: "For every endpoint reachable from the API client, called with all optional fields and with none, with and without request options: exactly one request is handed to the HTTP layer; its URL is the configured base URL with the endpoint's path in which every path argument is percent-encoded, and method and path are those the endpoint names in its errors; the Authorization header is Basic base64(username:password), SDK and public key headers are set and overridable; every field of the request object is sent as the query parameter of that name or in the body, absent ones are not; timeout, retries, abort signal, extra headers and query parameters of the call are passed on",
  assumptions: ["the URL join helper appends its path to the base URL", "percent-encoding and base64 are done by the runtime"],
  min: 500,
  run(p, R) {
    const eps = endpoints(p);
    R.ob("endpoints", eps.length >= 50, `only ${eps.length} endpoints found`);
    const str = (n) => {
      const v = S(n, { label: n, ty: { kind: "string", nullable: false } });
      return v;
    };
    for (const ep of eps)
      for (const variant of ["full", "bare", "override", "zero"]) {
        const full = variant === "full" || variant === "override";
        const tag = `${ep.id}:${variant}`;
        let n = 0, seen = null;
        const truthy = (I, st, ...vs) => vs.forEach((v) => I.addRefine(st, single(v), { t: true }));
        const X = callEndpoint(p, R, ep, {
          present: full,
          options(I, st) {
            for (const k of ["pk", "sk", "base", "sdkName", "sdkVer", "pub"]) truthy(I, st, str(k));
            return L.mkObj(I, st, "options", { environment: str("env"), baseUrl: str("base"), username: str("pk"), password: str("sk"), xLangfuseSdkName: str("sdkName"), xLangfuseSdkVersion: str("sdkVer"), xLangfusePublicKey: str("pub"), headers: L.mkObj(I, st, "oh", { "X-Extra": str("extra") }) });
          },
          reqOpts(I, st) {
            if (variant === "bare") return UNDEF;
            if (variant === "zero") return L.mkObj(I, st, "ro", { timeoutInSeconds: C(0), maxRetries: C(0) });
            for (const k of ["ovPub", "ovName", "ovVer"]) truthy(I, st, str(k));
            return L.mkObj(I, st, "ro", { timeoutInSeconds: C(7), maxRetries: S("retries", { ty: { kind: "number", nullable: false } }), abortSignal: S("signal", { ty: { kind: "object", nullable: false } }), queryParams: L.mkObj(I, st, "qp", { extraQ: str("extraQ") }), headers: L.mkObj(I, st, "rh", { "X-Call": str("call") }), ...(variant === "override" ? { xLangfusePublicKey: str("ovPub"), xLangfuseSdkName: str("ovName"), xLangfuseSdkVersion: str("ovVer") } : {}) });
          },
          respond: (I, st) => [{ name: "timeout", mk: (s) => L.mkObj(I, s, "response", { ok: C(false), error: L.mkObj(I, s, "rerr", { reason: C("timeout") }), rawResponse: S("raw", { ty: { kind: "object", nullable: false } }) }) }],
          onFetch(info, a, ai) {
            n++;
            const I = info.interp, st = info.st, W = where(I, info);
            const g = (k) => prop(st, a, k) || UNDEF;
            const h = g("headers");
            R.ob(tag + ":auth", L.labelsOf(prop(st, h, "Authorization") || UNDEF) === "Basic {base64({pk}:{sk})}", `the request is not authenticated with the configured keys but ${L.labelsOf(prop(st, h, "Authorization") || UNDEF)}`, W);
            const ov = variant === "override";
            R.ob(tag + ":sdk-headers", prop(st, h, "X-Langfuse-Sdk-Name") === str(ov ? "ovName" : "sdkName") && prop(st, h, "X-Langfuse-Sdk-Version") === str(ov ? "ovVer" : "sdkVer") && prop(st, h, "X-Langfuse-Public-Key") === str(ov ? "ovPub" : "pub"), "SDK name, version or public key header is missing or wrong", W);
            R.ob(tag + ":headers", prop(st, h, "X-Extra") === str("extra") && (!full || prop(st, h, "X-Call") === str("call")), "additional headers are not sent", W);
            const ts = variant === "bare" ? C(60000) : variant === "zero" ? C(0) : C(7000);
            R.ob(tag + ":timeout", g("timeoutMs") === ts, `the timeout is ${L.labelsOf(g("timeoutMs"))} ms`, W);
            R.ob(tag + ":retries", g("maxRetries") === (variant === "bare" ? UNDEF : variant === "zero" ? C(0) : S("retries")), "the number of retries is not passed on", W);
            R.ob(tag + ":abort", g("abortSignal") === (full ? S("signal") : UNDEF), "the abort signal is not passed on", W);
            // URL
            const u = single(g("url"));
            const base = u && u.joinArgs && u.joinArgs[0];
            R.ob(tag + ":base", base === str("base"), `the request goes to ${base ? L.labelsOf(base) : L.labelsOf(g("url"))} instead of the configured base URL`, W);
            const t = u && u.joinArgs && u.joinArgs.length === 2 ? template(u.joinArgs[1]) : null;
            R.ob(tag + ":path", t && t.startsWith("/"), `the path contains an argument that is not percent-encoded, or is unknown: ${u && u.joinArgs ? u.joinArgs.slice(1).map(L.labelsOf).join("") : L.labelsOf(g("url"))}`, W);
            if (t) for (const k of Object.keys(ai.path)) R.ob(tag + ":path-args", t.includes("{" + k + "}"), `argument ${k} is not in the path ${t}`, W);
            seen = { method: isConst(g("method")) ? constOf(g("method")) : "?", path: t };
            // query and body
            const q = g("queryParameters"), b = g("body");
            if (full) R.ob(tag + ":extra-query", prop(st, q, "extraQ") === str("extraQ"), "additional query parameters are not sent", W);
            const hasT = (v, l) => v && deepTaint(st, v).some((x) => x.t === l);
            const inPath = (k) => t && t.includes("{" + k + "}");
            for (const k of Object.keys(ai.fields)) {
              const qv = prop(st, q, k), bv = b && prop(st, b, k);
              R.ob(`${tag}:field`, hasT(qv, "f:" + k) || bv === ai.fields[k] || inPath(k), `field ${k} of the request is not sent`, W);
              R.ob(`${tag}:field-once`, !(qv && bv && !isConst(qv)), `field ${k} is sent twice`, W);
            }
            if (ai.request && !Object.keys(ai.fields).length && !single(ai.request).id) {
            } else if (ai.request && single(ai.request).k === "sym") R.ob(tag + ":body", b === ai.request, "the request body is not the given one", W);
            if (q && single(q) && st.rec(single(q))) for (const [k, v] of st.rec(single(q)).props) {
              if (k === "extraQ") continue;
              if (isConst(v) && constOf(v) === undefined) continue;
              R.ob(tag + ":no-foreign-query", k in ai.fields && deepTaint(st, v).every((x) => x.t === "f:" + k), `query parameter ${k} is set from something else than the field ${k}`, W);
            }
            const hasBody = b && !(isConst(b) && constOf(b) === undefined);
            if (hasBody) R.ob(tag + ":json", constOf2(g("requestType")) === "json" && constOf2(g("contentType")) === "application/json", "the body is not sent as JSON", W);
            R.ob(tag + ":get-no-body", !(hasBody && seen.method === "GET"), "a GET request has a body", W);
          },
          stub(node, info) {
            if (/core\/url\/join\.ts$/.test(node.getSourceFile().fileName) && L.fnNameOf(node) === "join") return S("join(" + info.args.map((x) => x.key).join() + ")", { label: "url", joinArgs: info.args, ty: { kind: "string", nullable: false } });
            if (L.fnNameOf(node) === "base64Encode") return b64(info.args[0]);
            return null;
          },
        });
        for (const q of X.outs) {
          R.ob(tag + ":one-request", q.st.fact("requests") === 1, `the call makes ${q.st.fact("requests") || 0} requests`);
          if (variant === "full" && seen && q.k === "throw") {
            const msg = prop(q.st, q.v, "message");
            const m = msg && isConst(msg) && /calling ([A-Z]+) (\S+?)\.?$/.exec(constOf(msg));
            if (m) R.ob(tag + ":endpoint", seen.method === m[1] && seen.path === m[2], `the request is ${seen.method} ${seen.path}, but the endpoint is ${m[1]} ${m[2]}`);
            else R.note(tag + ": endpoint not named");
          }
        }
        R.ob(tag + ":reached", n > 0 && X.outs.length > 0, "the endpoint makes no request");
        R.entry(tag);
      }
    for (const ep of eps) history(p, R, ep, str);
  },
};
// requests of two clients in turn: each carries the keys, base URL and headers of its own client and the headers and
// query parameters of its own call, whatever was called before
function history(p, R, ep, str) {
  const tag = `${ep.id}:history`;
  const calls = [
    { on: "A", own: "1" },
    { on: "B", own: null },
    { on: "A", own: null },
    { on: "B", own: "2" },
    { on: "A", own: "3" },
  ];
  const seen = new Set();
  const truthy = (I, st, v) => (I.addRefine(st, single(v), { t: true }), v);
  const X = callEndpoint(p, R, ep, {
    history: {
      clients: ["A", "B"],
      options: (I, st, n) => L.mkObj(I, st, "options" + n, { environment: str("env" + n), baseUrl: truthy(I, st, str("base" + n)), username: truthy(I, st, str("pk" + n)), password: truthy(I, st, str("sk" + n)), xLangfuseSdkName: truthy(I, st, str("name" + n)), xLangfuseSdkVersion: truthy(I, st, str("ver" + n)), xLangfusePublicKey: truthy(I, st, str("pub" + n)), headers: L.mkObj(I, st, "oh" + n, { ["X-Of-" + n]: truthy(I, st, str("extra" + n)) }) }),
      calls: calls.map((c) => ({
        on: c.on,
        reqOpts: c.own && ((I, st) => L.mkObj(I, st, "ro" + c.own, { timeoutInSeconds: C(+c.own), xLangfusePublicKey: truthy(I, st, str("ovPub" + c.own)), headers: L.mkObj(I, st, "rh" + c.own, { ["X-Call-" + c.own]: truthy(I, st, str("call" + c.own)) }), queryParams: L.mkObj(I, st, "qp" + c.own, { ["q" + c.own]: truthy(I, st, str("query" + c.own)) }) })),
      })),
    },
    respond: (I, st) => [{ name: "timeout", mk: (s) => L.mkObj(I, s, "response", { ok: C(false), error: L.mkObj(I, s, "rerr", { reason: C("timeout") }), rawResponse: S("raw", { ty: { kind: "object", nullable: false } }) }) }],
    onFetch(info, a) {
      const I = info.interp, st = info.st, W = where(I, info);
      const i = st.fact("call"), c = calls[i], n = c.on;
      const nth = `request ${i + 1} (client ${n})`;
      seen.add(i);
      const g = (k) => prop(st, a, k) || UNDEF;
      const h = g("headers");
      const at = (k) => prop(st, h, k) || UNDEF;
      R.ob(tag + ":auth", L.labelsOf(at("Authorization")) === `Basic {base64({pk${n}}:{sk${n}})}`, `${nth} carries the credentials ${L.labelsOf(at("Authorization"))}`, W);
      R.ob(tag + ":sdk-headers", at("X-Langfuse-Sdk-Name") === str("name" + n) && at("X-Langfuse-Sdk-Version") === str("ver" + n) && at("X-Langfuse-Public-Key") === str(c.own ? "ovPub" + c.own : "pub" + n), `${nth} carries SDK or public key headers of another client or call`, W);
      R.ob(tag + ":headers", at("X-Of-" + n) === str("extra" + n) && at("X-Of-" + (n === "A" ? "B" : "A")) === UNDEF, `${nth} does not carry its client's additional headers, or another's`, W);
      for (const k of ["1", "2", "3"]) {
        R.ob(tag + ":call-headers", at("X-Call-" + k) === (c.own === k ? str("call" + k) : UNDEF), `${nth} carries the headers ${L.labelsOf(at("X-Call-" + k))} of call ${k}`, W);
        const qp = prop(st, g("queryParameters"), "q" + k) || UNDEF;
        R.ob(tag + ":call-query", qp === (c.own === k ? str("query" + k) : UNDEF), `${nth} carries the query parameters ${L.labelsOf(qp)} of call ${k}`, W);
      }
      R.ob(tag + ":timeout", g("timeoutMs") === C(c.own ? +c.own * 1000 : 60000), `the timeout of ${nth} is ${L.labelsOf(g("timeoutMs"))} ms`, W);
      const u = single(g("url"));
      R.ob(tag + ":base", u && u.joinArgs && u.joinArgs[0] === str("base" + n), `${nth} goes to another base URL`, W);
    },
    stub(node, info) {
      if (/core\/url\/join\.ts$/.test(node.getSourceFile().fileName) && L.fnNameOf(node) === "join") return S("join(" + info.args.map((x) => x.key).join() + ")", { label: "url", joinArgs: info.args, ty: { kind: "string", nullable: false } });
      if (L.fnNameOf(node) === "base64Encode") return b64(info.args[0]);
      return null;
    },
  });
  for (const q of X.outs) R.ob(tag + ":one-request", q.requests === 1, `call ${q.i + 1} makes ${q.requests || 0} requests`);
  R.ob(tag + ":reached", seen.size === calls.length, `only ${seen.size} of ${calls.length} calls make a request`);
  R.entry(tag);
}
const constOf2 = (v) => (v && isConst(v) ? constOf(v) : undefined);
