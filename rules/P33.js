"use strict";
const { L, V, prop, where } = require("./_common.js");
const { endpoints, callEndpoint } = require("./_api.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const CLS = { 400: ["Error", "BadRequestError"], 401: ["UnauthorizedError"], 403: ["AccessDeniedError"], 404: ["NotFoundError"], 405: ["MethodNotAllowedError"] };
const OBJ = { kind: "object", nullable: false };
// the promise handed to the caller settles exactly as the request it wraps
function promiseRules(p, R) {
  const cls = L.findClass(p, "core", "HttpResponsePromise");
  const data = S("data", { label: "data", ty: { kind: "any", nullable: true } });
  const err = S("err", { label: "err", ty: OBJ });
  const uses = {
    "then(f)": { m: "then", args: (f) => [f], ok: "cb", bad: "err" },
    "then(f, g)": { m: "then", args: (f, g) => [f, g], ok: "cb", bad: "gcb" },
    "catch(g)": { m: "catch", args: (f, g) => [g], ok: "data", bad: "gcb" },
    "then()": { m: "then", args: () => [], ok: "data", bad: "err" },
    "then(null, g)": { m: "then", args: (f, g) => [V.NULL, g], ok: "data", bad: "gcb" },
    "then(f, null)": { m: "then", args: (f) => [f, V.NULL], ok: "cb", bad: "err" },
    "catch()": { m: "catch", args: () => [], ok: "data", bad: "err" },
    "catch(null)": { m: "catch", args: () => [V.NULL], ok: "data", bad: "err" },
    "finally()": { m: "finally", args: () => [], ok: "data", bad: "err", none: true },
    "finally(h)": { m: "finally", args: (f, g, h) => [h], ok: "data", bad: "err" },
    "withRawResponse()": { m: "withRawResponse", args: () => [], ok: "inner", bad: "err" },
    "then(f) after then(f)": { m: "then", args: (f) => [f], ok: "cb", bad: "err", twice: true },
    "withRawResponse() after then(f)": { m: "withRawResponse", args: () => [], ok: "inner", bad: "err", twice: true },
  };
  for (const [un, u] of Object.entries(uses))
    for (const outcome of ["ok", "bad"]) {
      const tag = `promise:${un}:${outcome}`;
      let n = 0;
      const I = R.use(
        L.mkInterp(p, {
          analyseApi: true,
          debugEnabled: false,
          opts: { K: 24 },
          onCall(info) {
            const id = info.callee.id;
            if (!["f", "g", "h"].includes(id)) return null;
            info.st.setFact("calls", (info.st.fact("calls") || "") + id + (id === "h" ? "" : info.args[0] === data ? "d" : info.args[0] === err ? "e" : "?"));
            return [{ k: "ret", v: S("r:" + id, { label: "result of " + id, ty: { kind: "string", nullable: false } }), st: info.st }];
          },
        }),
      );
      const st = new L.State();
      const inner = L.mkObj(I, st, "withRaw", { data, rawResponse: S("raw", { label: "raw", ty: OBJ }) });
      const prom = I.alloc(st, "innerPromise", outcome === "ok" ? I.resolvedRec(inner) : { ...I.promRec("rejected"), v: err });
      const cv = V.mkVal([V.clsAtom(cls, null)]);
      const [f, g, h] = ["f", "g", "h"].map((x) => L.symFn(x));
      for (const o of L.invoke(I, st, cv, "fromPromise", [prom], "fp")) {
        if (!R.ob(tag + ":created", o.k === "ret", "creating the promise throws")) continue;
        let starts = [o.st];
        if (u.twice) starts = L.invoke(I, o.st, o.v, "then", [f], "first").flatMap((x) => I.awaitVal(x.st, x.v, null, L.root)).map((x) => (x.st.setFact("calls", ""), x.st));
        for (const s0 of starts)
          for (const c of L.invoke(I, s0, o.v, u.m, u.args(f, g, h), "use")) {
            if (!R.ob(tag + ":call", c.k === "ret", "the call throws")) continue;
            for (const q of I.awaitVal(c.st, c.v, null, L.root)) {
              n++;
              const want = u[outcome];
              const calls = q.st.fact("calls") || "";
              const wantCalls = { cb: "fd", gcb: "ge", data: u.m === "finally" && !u.none ? "h" : "", err: u.m === "finally" && !u.none ? "h" : "", inner: "" }[want];
              R.ob(tag + ":callbacks", calls === wantCalls, `callbacks called: "${calls}", expected "${wantCalls}"`);
              const got = q.k === "throw" ? (q.v === err ? "err" : "?") : q.v === data ? "data" : q.v === inner ? "inner" : q.v === S("r:f") || L.labelsOf(q.v) === "result of f" ? "cb" : L.labelsOf(q.v) === "result of g" ? "gcb" : "?";
              R.ob(tag + ":settles", got === want, `settles with ${q.k} ${L.labelsOf(q.v)}, expected ${want}`);
            }
          }
      }
      R.ob(tag + ":reached", n > 0, "never settles");
    }
  R.entry("HttpResponsePromise");
}
module.exports = {
  id: "P33",
  title: "every REST call resolves with the body of a success and rejects on every failure",
  rule: "For every endpoint and every outcome of the HTTP layer (success; status 400, 401, 403, 404, 405 and others; non-JSON body; timeout; unknown failure): a success fulfils with the response body (nothing for endpoints without one), every failure rejects: status failures with the error class of that status carrying status code, body and raw response, timeouts with LangfuseAPITimeoutError, others with LangfuseAPIError carrying the message; the promise returned to the caller settles accordingly through then, catch, finally and withRawResponse",
  assumptions: ["the HTTP layer reports its outcome as its own property states"],
  min: 500,
  run(p, R) {
    promiseRules(p, R);
    const eps = endpoints(p);
    R.ob("endpoints", eps.length >= 50, `only ${eps.length} endpoints found`);
    const raw = S("raw", { label: "raw", ty: OBJ });
    const body = S("okBody", { label: "okBody", ty: { kind: "any", nullable: true } });
    const ebody = S("errBody", { label: "errBody", ty: { kind: "any", nullable: true } });
    const rb = L.symStr("rawBody");
    const emsg = L.symStr("errMsg");
    const err = (I, s, n, o) => L.mkObj(I, s, "response:" + n, { ok: C(false), error: L.mkObj(I, s, "rerr:" + n, o), rawResponse: raw });
    const responses = (I) => [
      { name: "ok", mk: (s) => L.mkObj(I, s, "response:ok", { ok: C(true), body, headers: S("hdrs", { ty: OBJ }), rawResponse: raw }) },
      ...[400, 401, 403, 404, 405, 409, 429, 500].map((c) => ({ name: "s" + c, mk: (s) => err(I, s, "s" + c, { reason: C("status-code"), statusCode: C(c), body: ebody }) })),
      { name: "non-json", mk: (s) => err(I, s, "non-json", { reason: C("non-json"), statusCode: C(200), rawBody: rb }) },
      { name: "timeout", mk: (s) => err(I, s, "timeout", { reason: C("timeout") }) },
      { name: "unknown", mk: (s) => err(I, s, "unknown", { reason: C("unknown"), errorMessage: emsg }) },
    ];
    for (const ep of eps) {
      const rt = p.checker.typeToString(p.checker.getSignatureFromDeclaration(ep.node).getReturnType());
      const isVoid = /<void>/.test(rt);
      const seen = new Set();
      const X = callEndpoint(p, R, ep, {
        present: false,
        opts: { K: 40, stringifyThrows: false },
        options: (I, st) => L.mkObj(I, st, "options", { environment: L.symStr("env"), baseUrl: L.symStr("base"), username: L.symStr("pk"), password: L.symStr("sk") }),
        respond: (I) => responses(I),
        stub(node, info) {
          if (/core\/url\/join\.ts$/.test(node.getSourceFile().fileName) && L.fnNameOf(node) === "join") return L.symStr("url");
          if (L.fnNameOf(node) === "base64Encode") return L.symStr("b64");
          return null;
        },
      });
      for (const q of X.outs) {
        const n = q.st.fact("resp");
        if (!n) {
          R.ob(`${ep.id}:before-request`, false, `the call ends without a request (${q.k} ${L.labelsOf(q.v)})`);
          continue;
        }
        seen.add(n);
        const tag = `${ep.id}:${n}`;
        if (n === "ok") {
          if (!R.ob(tag + ":fulfils", q.k === "ret", "a success rejects")) continue;
          R.ob(tag + ":data", isVoid ? true : prop(q.st, q.v, "data") === body, `the call fulfils with ${L.labelsOf(prop(q.st, q.v, "data") || UNDEF)} instead of the response body`);
          R.ob(tag + ":raw", prop(q.st, q.v, "rawResponse") === raw, "the raw response is not passed on");
          continue;
        }
        if (!R.ob(tag + ":rejects", q.k === "throw", "the failure is swallowed: the call fulfils")) continue;
        const a = single(q.v);
        const r = a && q.st.rec(a);
        const cn = r && r.cls && r.cls.name && r.cls.name.text;
        const g = (k) => prop(q.st, q.v, k);
        if (/^s\d/.test(n)) {
          const code = +n.slice(1);
          const api = r && r.cls && X.I.classChain(r.cls).some((c) => c.name && c.name.text === "LangfuseAPIError");
          R.ob(tag + ":class", api && (!CLS[code] || CLS[code].includes(cn)), `status ${code} rejects with ${cn || L.labelsOf(q.v)}`);
          R.ob(tag + ":status", g("statusCode") === C(code), `the error's status code is ${L.labelsOf(g("statusCode") || UNDEF)}`);
          if (code !== 409 && code !== 429) R.ob(tag + ":body", g("body") === ebody, "the error does not carry the response body");
          R.ob(tag + ":raw", g("rawResponse") === raw, "the error does not carry the raw response");
        } else if (n === "timeout") R.ob(tag + ":class", cn === "LangfuseAPITimeoutError", `a timeout rejects with ${cn || L.labelsOf(q.v)}`);
        else {
          R.ob(tag + ":class", cn === "LangfuseAPIError", `${n} rejects with ${cn || L.labelsOf(q.v)}`);
          if (n === "non-json") R.ob(tag + ":body", g("body") === rb && g("statusCode") === C(200), "the error does not carry body and status");
          else R.ob(tag + ":message", L.labelsOf(g("message") || UNDEF).includes("errMsg"), `the error's message is ${L.labelsOf(g("message") || UNDEF)}`);
        }
      }
      for (const r of responses(X.I)) R.ob(`${ep.id}:${r.name}:reached`, seen.has(r.name), "this outcome is never handled");
      R.entry(ep.id);
    }
  },
};
