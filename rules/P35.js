"use strict";
const { L, V, prop, where, konst } = require("./_common.js");
const { runFetcher } = require("./_http.js");
const { S, C, UNDEF, single, isConst, constOf, mkVal } = V;
const OBJ = { kind: "object", nullable: false };
const TMO = C(7777);
// the URL class as an immutable base plus the assigned pathname
function urlModel() {
  const cur = (st, a) => {
    const u = new URL(a.urlBase);
    const r = st.heap.get(a.key);
    for (const k of ["pathname", "search", "hash"]) {
      const v = r && r.props && r.props.get(k);
      if (v) {
        if (!isConst(v)) return null;
        u[k] = constOf(v);
      }
    }
    return u;
  };
  return {
    onNew(info) {
      if ((info.name || info.label) !== "URL" || !isConst(info.args[0])) return null;
      let b = constOf(info.args[0]);
      try {
        b = new URL(b, info.args[1] && isConst(info.args[1]) ? constOf(info.args[1]) : undefined).toString();
      } catch (_) {
        return [{ k: "throw", v: S("err:URL", { label: "Invalid URL", isError: true }), st: info.st }];
      }
      return S("url:" + b, { label: "URL", ty: OBJ, urlBase: b });
    },
    onGetProp(info) {
      if (!info.base.urlBase) return null;
      const u = cur(info.st, info.base);
      if (!u) return null;
      if (info.name === "pathname" && info.st.heap.get(info.base.key)) return C(u.pathname);
      return typeof u[info.name] === "string" ? C(u[info.name]) : null;
    },
    onCall(info) {
      const t = info.thisV && single(info.thisV);
      if (t && t.urlBase && (info.name === "toString" || info.name === "toJSON")) {
        const u = cur(info.st, t);
        return u ? C(u.toString()) : null;
      }
      return null;
    },
  };
}
function joinRules(p, R) {
  const f = L.findFunction(p, "core", "join");
  const cases = [
    ["https://cloud.langfuse.com", "https://cloud.langfuse.com/api/public/x"],
    ["https://cloud.langfuse.com/", "https://cloud.langfuse.com/api/public/x"],
    ["http://localhost:3000", "http://localhost:3000/api/public/x"],
    ["https://host.example/prefix", "https://host.example/prefix/api/public/x"],
    ["https://host.example/prefix/", "https://host.example/prefix/api/public/x"],
    ["https://host.example/a/b/", "https://host.example/a/b/api/public/x"],
    ["https://host.example/api/public/x", "https://host.example/api/public/x/api/public/x"],
    ["https://host.example/api", "https://host.example/api/api/public/x"],
    ["/relative", "/relative/api/public/x"],
    ["localhost", "localhost/api/public/x"],
  ];
  const tails = ["", "/a%2Fb", "/name%20with%20space", "/p%C3%BC?no", "/"];
  for (const [base, want0] of cases)
    for (const tl of tails) {
      if (tl.includes("?")) continue;
      const want = want0 + tl;
      const I = R.use(L.mkInterp(p, { analyseApi: true, debugEnabled: false, opts: { K: 24, maxElems: 8 }, ...urlModel() }));
      const st = new L.State();
      const tag = `join:${base}:${tl}`;
      let n = 0;
      for (const o of L.callFunction(I, st, f, [C(base), C("/api/public/x" + tl)], "join")) {
        n++;
        R.ob(tag, o.k === "ret" && isConst(o.v) && constOf(o.v) === want, `the URL is ${L.labelsOf(o.v)} instead of ${want}`);
      }
      R.ob(tag + ":reached", n > 0, "no result");
    }
  R.entry("url.join");
}
module.exports = {
  id: "P35",
  title: "requests carry their data intact and the HTTP layer reports what the server answered",
  rule: "URL: for base URLs with and without path prefix, port and trailing slash the path is appended once and keeps its percent-encoding; query parameters decode to exactly the given values (arrays repeated, undefined left out, nested objects bracketed). Request: headers are sent with suppliers resolved and nullish ones left out, the JSON body is the serialised request with its content type. Response: status 200-399 is a success with the parsed body (nothing if empty), any other status a failure with that status and its body, a network failure, timeout and abort are failures saying so, a body that is not JSON is a failure",
  assumptions: ["URL, encodeURIComponent and JSON of the runtime are correct", "request bodies are serialisable"],
  min: 100,
  run(p, R) {
    joinRules(p, R);
    const body = S("body", { label: "body", ty: OBJ });
    const args = (extra) => (I, st, sig) => ({ url: C("https://h.example/api"), method: C("POST"), timeoutMs: TMO, abortSignal: sig, ...(typeof extra === "function" ? extra(I, st) : extra) });
    const fetchOnce = (tag, extra, check) => {
      let n = 0;
      runFetcher(p, R, tag, {
        timeoutMs: TMO,
        args: args(extra),
        script: () => ({ status: 200 }),
        onFetch(f) {
          n++;
          check(f, where(f.I, f.info));
        },
      });
      R.ob(tag + ":reached", n > 0, "no request is sent");
    };
    // query strings
    const nasty = "a b&c=d/é?#+%";
    const queries = {
      none: [(I, st) => UNDEF, []],
      empty: [(I, st) => L.mkObj(I, st, "q", {}), []],
      string: [(I, st) => L.mkObj(I, st, "q", { name: C(nasty) }), [["name", nasty]]],
      key: [(I, st) => L.mkObj(I, st, "q", { "k&y": C("v") }), [["k&y", "v"]]],
      many: [(I, st) => L.mkObj(I, st, "q", { page: C(2), limit: C(0), b: C(false), s: C("x") }), [["page", "2"], ["limit", "0"], ["b", "false"], ["s", "x"]]],
      undef: [(I, st) => L.mkObj(I, st, "q", { a: UNDEF, b: C("x"), c: UNDEF }), [["b", "x"]]],
      array: [(I, st) => L.mkObj(I, st, "q", { tags: L.mkArr(I, st, "qa", [C("x,y"), C(nasty), C("z")]), after: C("1") }), [["tags", "x,y"], ["tags", nasty], ["tags", "z"], ["after", "1"]]],
      array1: [(I, st) => L.mkObj(I, st, "q", { tags: L.mkArr(I, st, "qa", [C("only")]) }), [["tags", "only"]]],
      array0: [(I, st) => L.mkObj(I, st, "q", { tags: L.mkArr(I, st, "qa", []), x: C("1") }), [["x", "1"]]],
      arrayValues: [(I, st) => L.mkObj(I, st, "q", { "k&y": konst(I, st, "qa", ["", 0, false, " x ", "x", "x"]) }), [["k&y", ""], ["k&y", "0"], ["k&y", "false"], ["k&y", " x "], ["k&y", "x"], ["k&y", "x"]]],
      spaces: [(I, st) => L.mkObj(I, st, "q", { a: C(" x "), b: C(""), c: C("same"), d: C("same") }), [["a", " x "], ["b", ""], ["c", "same"], ["d", "same"]]],
      nested: [(I, st) => L.mkObj(I, st, "q", { o: L.mkObj(I, st, "qo", { k: C(nasty), u: UNDEF }) }), [["o[k]", nasty]]],
    };
    for (const [qn, [mk, want]] of Object.entries(queries).flatMap(([k, v]) => (k === "string" ? ["GET", "PUT", "PATCH", "DELETE"].map((m) => [k + ":" + m, v]) : []).concat([[k, v]]))) {
      const tag = "query:" + qn;
      const method = qn.split(":")[1];
      fetchOnce(tag, (I, st) => ({ queryParameters: mk(I, st), ...(method ? { method: C(method) } : {}) }), (f, w) => {
        if (method) R.ob(tag + ":method", prop(f.st, f.init, "method") === C(method), `the method is ${L.labelsOf(prop(f.st, f.init, "method") || UNDEF)}`, w);
        if (!R.ob(tag + ":const", isConst(f.url), `the URL is ${L.labelsOf(f.url)}`, w)) return;
        const u = new URL(constOf(f.url));
        const got = [...u.searchParams];
        R.ob(tag + ":base", u.origin + u.pathname === "https://h.example/api" && !u.hash && (want.length || !u.search), `the URL is ${u}`, w);
        R.ob(tag, JSON.stringify(got) === JSON.stringify(want), `the query decodes to ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`, w);
      });
    }
    const qv = L.symStr("qv");
    fetchOnce("query:any", (I, st) => ({ queryParameters: L.mkObj(I, st, "q", { name: qv }) }), (f, w) => R.ob("query:any", L.labelsOf(f.url).replace(/[{}]/g, "") === "https://h.example/api?name=encodeURIComponent(s:qv)" || /^https:\/\/h\.example\/api\?name=\{?encodeURIComponent/.test(L.labelsOf(f.url)), `the URL is ${L.labelsOf(f.url)}`, w));
    // headers
    const auth = L.symStr("auth"), plain = L.symStr("plain");
    const hdrs = (I, st) => {
      return L.mkObj(I, st, "headers", { Authorization: auth, "X-Plain": plain, "X-Null": C(null), "X-Undef": UNDEF, "X-Num": C(7) });
    };
    const H = (f, k) => {
      const h = prop(f.st, f.init, "headers");
      return h && prop(f.st, h, k);
    };
    fetchOnce("headers", (I, st) => ({ contentType: C("application/json"), headers: hdrs(I, st) }), (f, w) => {
      R.ob("headers:values", H(f, "Authorization") === auth && H(f, "X-Plain") === plain, `headers are ${["Authorization", "X-Plain"].map((k) => L.labelsOf(H(f, k) || UNDEF)).join()}`, w);
      R.ob("headers:nullish", !H(f, "X-Null") && !H(f, "X-Undef"), "a nullish header is sent", w);
      R.ob("headers:number", H(f, "X-Num") === C("7"), `a number header is ${L.labelsOf(H(f, "X-Num") || UNDEF)}`, w);
      R.ob("headers:no-content-type", !H(f, "Content-Type"), "a request without body has a content type", w);
      R.ob("no-body", !prop(f.st, f.init, "body") || prop(f.st, f.init, "body") === UNDEF, "a request without body sends one", w);
    });
    fetchOnce("json-body", (I, st) => ({ body, requestType: C("json"), contentType: C("application/json"), headers: hdrs(I, st) }), (f, w) => {
      const b = prop(f.st, f.init, "body");
      R.ob("body:json", b && /^json\(s:body(,|\))/.test(L.labelsOf(b)), `the body is ${L.labelsOf(b || UNDEF)}`, w);
      R.ob("body:content-type", H(f, "Content-Type") === C("application/json"), `the content type is ${L.labelsOf(H(f, "Content-Type") || UNDEF)}`, w);
      R.ob("body:headers", H(f, "Authorization") === auth && H(f, "X-Plain") === plain, "the headers are not sent with a body", w);
      R.ob("method", prop(f.st, f.init, "method") === C("POST"), "the method is not passed on", w);
    });
    for (const b of [null, 0, false, "", "text"])
      fetchOnce("json-body:" + JSON.stringify(b), () => ({ body: C(b), requestType: C("json"), contentType: C("application/json") }), (f, w) => {
        const v = prop(f.st, f.init, "body");
        R.ob(`body:${JSON.stringify(b)}`, v === C(JSON.stringify(b)), `the body ${JSON.stringify(b)} is sent as ${L.labelsOf(v || UNDEF)}`, w);
        R.ob(`body:${JSON.stringify(b)}:content-type`, H(f, "Content-Type") === C("application/json"), "a JSON body is sent without its content type", w);
      });
    // outcomes
    const netErr = (I, st) => L.mkObj(I, st, "netErr", { name: C("TypeError"), message: C("fetch failed") }, { ext: "TypeError" });
    const parsed = "parsed body";
    const outcome = (tag, script, check, cfg = {}) => {
      const X = runFetcher(p, R, tag, { timeoutMs: TMO, args: args({ maxRetries: C(0), ...(cfg.extra || {}) }), script: () => script, ...cfg });
      let n = 0;
      for (const q of X.outs) {
        n++;
        if (!R.ob(tag + ":settles", q.k === "ret", `the HTTP layer throws ${L.labelsOf(q.v)}`)) continue;
        const g = (...ks) => ks.reduce((v, k) => v && prop(q.st, v, k), q.v);
        check(tag, g, (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined"));
      }
      R.ob(tag + ":reached", n > 0, "no outcome");
      R.entry(tag);
    };
    const isOk = (want, status) => (tag, g, lab) => {
      R.ob(tag + ":ok", g("ok") === C(true), "a success is reported as a failure");
      R.ob(tag + ":body", lab(g("body")) === want, `the body is ${lab(g("body"))} instead of ${want}`);
      R.ob(tag + ":raw", g("rawResponse", "status") === C(status), "the raw response lacks the status");
    };
    const isStatus = (want, status) => (tag, g, lab) => {
      R.ob(tag + ":ok", g("ok") === C(false), "a failure is reported as a success");
      R.ob(tag + ":reason", g("error", "reason") === C("status-code") && g("error", "statusCode") === C(status), `reported as ${lab(g("error", "reason"))} ${lab(g("error", "statusCode"))}`);
      R.ob(tag + ":body", lab(g("error", "body")) === want, `the error body is ${lab(g("error", "body"))} instead of ${want}`);
      R.ob(tag + ":raw", g("rawResponse", "status") === C(status), "the raw response lacks the status");
    };
    for (const s of [200, 201, 207, 299, 300, 399]) outcome("ok" + s, { status: s }, isOk(parsed, s));
    for (const [cn, ct] of [["json", "application/json"], ["json-utf8", "application/json; charset=utf-8"], ["text", "text/plain"], ["html", "text/html; charset=utf-8"], ["octets", "application/octet-stream"]]) outcome("ok200:" + cn, { status: 200, headers: { "content-type": ct } }, isOk(parsed, 200));
    // after retries the last answer is the one reported
    const seq = (name, list, check) => outcome("answers:" + name, null, check, { script: (n) => list[Math.min(n, list.length) - 1], extra: { maxRetries: C(list.length - 1) } });
    seq("503,500", [{ status: 503 }, { status: 500 }], isStatus(parsed, 500));
    seq("500,200", [{ status: 500 }, { status: 200 }], isOk(parsed, 200));
    seq("429,404", [{ status: 429 }, { status: 404 }], isStatus(parsed, 404));
    seq("408,503,429", [{ status: 408 }, { status: 503 }, { status: 429 }], isStatus(parsed, 429));
    seq("500,error", [{ status: 500 }, { reject: netErr }], (tag, g, lab) => R.ob(tag + ":reason", g("ok") === C(false) && g("error", "reason") === C("unknown") && g("error", "errorMessage") === C("fetch failed"), `reported as ${lab(g("error", "reason"))}`));
    // the raw response is the response
    for (const st of [200, 404])
      for (const raw of [{ redirected: true, statusText: "", type: "cors", url: "https://h.example/other" }, { redirected: false, statusText: "As Is", type: "basic", url: "https://h.example/api" }])
        outcome(`raw:${st}:${raw.type}`, { status: st, ...raw }, (tag, g, lab) => {
          R.ob(tag + ":status", g("rawResponse", "status") === C(st), "the raw response has another status");
          for (const k of Object.keys(raw)) R.ob(`${tag}:${k}`, g("rawResponse", k) === C(raw[k]), `the raw response's ${k} is ${lab(g("rawResponse", k))} instead of ${JSON.stringify(raw[k])}`);
          R.ob(tag + ":headers", g("rawResponse", "headers") && single(g("rawResponse", "headers")).id === "hdrs:1", "the raw response lacks the headers");
        });
    outcome("ok204-nobody", { status: 204, body: null }, isOk("undefined", 204));
    outcome("ok200-short", { status: 200, body: "0" }, isOk(parsed, 200));
    outcome("ok200-empty", { status: 200, body: "" }, isOk("undefined", 200));
    for (const s of [199, 400, 401, 403, 404, 405, 408, 409, 422, 429, 499, 500, 503, 599]) {
      for (const [cn, ct] of [["json", "application/json"], ["json-utf8", "application/json; charset=utf-8"], ["JSON", "Application/JSON"], ["json-spaced", "application/json ; charset=utf-8"], ["ld", "application/ld+json"], ["text-json", "text/json"], ["none", undefined], ["vnd", "application/vnd.x+json"], ["problem", "application/problem+json"]]) outcome(`status${s}:${cn}`, { status: s, headers: { "content-type": ct } }, isStatus(parsed, s));
      outcome(`status${s}:text`, { status: s, body: "bad", headers: { "content-type": "text/html" } }, isStatus('"<html>"', s));
      outcome(`status${s}:nobody`, { status: s, body: null }, isStatus("undefined", s));
    }
    outcome("non-json-success", { status: 200, body: "bad" }, (tag, g, lab) => {
      R.ob(tag + ":fails", g("ok") === C(false) && g("error", "reason") === C("non-json"), `a 200 whose body is not JSON is reported as ${g("ok") === C(true) ? "a success with an error object as data" : lab(g("error", "reason"))}`);
    });
    outcome("non-json-error", { status: 500, body: "bad" }, (tag, g, lab) => R.ob(tag + ":ok", g("ok") === C(false), "a 500 is reported as a success"));
    outcome("malformed-json-error", { status: 500, body: "bad", headers: { "content-type": "application/json" } }, (tag, g, lab) => R.ob(tag + ":ok", g("ok") === C(false), "a 500 is reported as a success"));
    for (const userSignal of [false, true]) {
      const t = (x) => x + (userSignal ? "+signal" : "");
      outcome(t("network-error"), { reject: netErr }, (tag, g, lab) => {
        R.ob(tag + ":ok", g("ok") === C(false), "a network failure is reported as a success");
        R.ob(tag + ":reason", g("error", "reason") === C("unknown") && g("error", "errorMessage") === C("fetch failed"), `reported as ${lab(g("error", "reason"))} ${lab(g("error", "errorMessage"))}`);
      }, { userSignal });
      outcome(t("timeout"), { timeout: true }, (tag, g, lab) => {
        R.ob(tag + ":ok", g("ok") === C(false), "a timeout is reported as a success");
        R.ob(tag + ":reason", g("error", "reason") === C("timeout"), `a timeout is reported as ${lab(g("error", "reason"))}`);
      }, { userSignal });
    }
    const aborted = (tag, g, lab) => {
      R.ob(tag + ":ok", g("ok") === C(false), "an abort is reported as a success");
      R.ob(tag + ":reason", g("error", "reason") === C("unknown") && /abort/i.test(lab(g("error", "errorMessage"))), `an abort is reported as ${lab(g("error", "reason"))} ${lab(g("error", "errorMessage"))}`);
    };
    outcome("abort", { abort: true }, aborted, { userSignal: true });
    outcome("abort-with-reason", { abort: true, reason: netErr }, aborted, { userSignal: true });
    outcome("aborted-before", { status: 200 }, aborted, { userSignal: true, userAborted: true });
  },
};
