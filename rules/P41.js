"use strict";
const { L, V, prop, where, konst, readConst, canon } = require("./_common.js");
const { S, C, UNDEF, NULL, single, isConst, constOf, mkVal } = V;
const OBJ = { kind: "object", nullable: false };
const FN = { kind: "function", nullable: false };
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
const ERR = S("netErr", { label: "netErr", ty: { kind: "any", nullable: true }, userErr: true });
const obj = (I, st, id, ps = {}) => L.mkObj(I, st, id, ps);
const arr = (I, st, id, vs) => L.mkArr(I, st, id, vs);
const SDK = { authorization: (v) => lab(v) === "Bearer {pk}", "content-type": (v) => v === C("application/json"), "x-langfuse-public-key": (v) => lab(v) === "pk", "x-langfuse-sdk-name": (v) => isConst(v) && constOf(v), "x-langfuse-sdk-version": (v) => v && v !== UNDEF && lab(v) !== "\"evil\"", "x-langfuse-sdk-integration": (v) => v === C("browser") };
function run(p, R, tag, { options, body, outcome, parsed, check, onFetch }) {
  let I, event = null;
  const X = { results: [], evs: new Map() };
  I = X.I = R.use(
    L.mkInterp(p, {
      debugEnabled: false,
      opts: { K: 32, maxElems: 60, maxSteps: 2e5, stringifyThrows: false },
      stub(node, info) {
        if (!info) return null;
        if (L.fnNameOf(node) === "generateUUID") {
          const n = (info.st.fact("uuids") || 0) + 1;
          info.st.setFact("uuids", n);
          return C("uuid" + n);
        }
        return null;
      },
      onCall(info) {
        const { callee, st, args } = info;
        if (callee.k === "bi" && callee.name === "JSON.stringify") {
          const v = S("json(" + args[0].key + ")", { label: "json", ty: { kind: "string", nullable: false }, jsonOf: args[0] });
          return v;
        }
        if (callee.k === "bi" && callee.name === "JSON.parse") {
          if (!parsed) return [{ k: "throw", v: S("syntaxErr", { label: "SyntaxError", ty: OBJ, isError: true }), st }];
          return parsed(I, st, C(st.fact("eventId")));
        }
        const id = callee.id || "";
        if (id === "resp.text") return st.fact("textFails") ? [{ k: "ret", v: I.alloc(st, "textp", { ...I.promRec("rejected"), v: ERR }), st }] : [{ k: "ret", v: I.alloc(st, "textp", I.resolvedRec(st.fact("text") === "" ? C("") : C(st.fact("text")))), st }];
        if (id === "resp.json") return [{ k: "ret", v: I.alloc(st, "textp", parsed && st.fact("text") ? I.resolvedRec(parsed(I, st, C(st.fact("eventId")))) : { ...I.promRec("rejected"), v: S("syntaxErr", { label: "SyntaxError", ty: OBJ, isError: true }) }), st }];
        if (id === "userFetch" || (callee.k === "bi" && callee.name === "fetch") || id === "globalFetch") {
          const w = where(I, info);
          const n = (st.fact("fetches") || 0) + 1;
          st.setFact("fetches", n);
          R.ob(tag + ":receiver", !info.thisV || info.thisV !== X.client, "fetch is called with the client as its receiver, which browsers reject", w);
          const init = args[1] || UNDEF;
          const j = single(prop(st, init, "body") || UNDEF);
          const req = j && j.jsonOf;
          const batch = req && prop(st, req, "batch"), br = batch && st.rec(single(batch));
          const ev = br && br.elems && br.elems.length === 1 && br.elems[0].v;
          if (R.ob(tag + ":one-event", ev, "the request does not carry exactly one event", w)) {
            const eid = prop(st, ev, "id");
            if (isConst(eid)) st.setFact("eventId", constOf(eid));
            const b = prop(st, ev, "body");
            if (R.ob(tag + ":event", prop(st, ev, "type") === C("score-create") && b && lab(eid) !== "undefined", "the event is not a score creation", w)) onFetch && onFetch(st, b, w);
          }
          R.ob(tag + ":method", prop(st, init, "method") === C("POST"), `the method is ${lab(prop(st, init, "method"))}`, w);
          X.url = args[0];
          const h = prop(st, init, "headers"), hr = h && st.rec(single(h));
          const seen = {};
          if (R.ob(tag + ":headers-known", hr && hr.props && !hr.open, "the headers are not determined", w))
            for (const [k, v] of hr.props) {
              if (v === UNDEF) continue;
              const l = k.toLowerCase();
              R.ob(tag + ":header-twice", !seen[l], `the header ${k} is sent twice`, w);
              seen[l] = v;
            }
          for (const [k, ok] of Object.entries(SDK)) R.ob(tag + ":header-" + k, seen[k] && ok(seen[k]), `the header ${k} is ${lab(seen[k])}`, w);
          X.headers = seen;
          return outcome(I, st);
        }
        return null;
      },
    }),
  );
  const st = new L.State();
  const cls = L.findClass(p, "browser", "LangfuseBrowserClient");
  X.errCls = L.findClass(p, "browser", "LangfuseBrowserError");
  for (const c of L.newInstance(I, st, cls, [options(I, st)], "client")) {
    if (c.k !== "ret" || !body) {
      X.results.push({ ...c, kind: c.k === "ret" ? "constructed" : "throws" });
      continue;
    }
    X.client = c.v;
    for (const o of L.invoke(I, c.st, c.v, "score", [body(I, c.st)], "score")) {
      if (!R.ob(tag + ":async", o.k === "ret", "score throws synchronously")) continue;
      for (const q of I.awaitVal(o.st, o.v, null, L.root)) X.results.push({ ...q, kind: q.k === "ret" ? "fulfil" : "reject" });
    }
  }
  R.ob(tag + ":reached", X.results.length > 0, "the call never settles");
  X.isErr = (q) => { const a = q.v && single(q.v), r = a && a.k === "obj" && q.st.rec(a); return r && r.cls === X.errCls; };
  for (const q of X.results) {
    if (body) R.ob(tag + ":one-request", q.st.fact("fetches") === 1, `${q.st.fact("fetches") || 0} requests are sent`);
    check(q, X);
  }
  R.entry(tag);
}
// Several scores on known values; clients may be shared; all calls are started first when overlapping.
function session(p, R, tag, { clients, calls, overlapping, sharedBody }) {
  const J = (st, k) => (st.fact(k) ? JSON.parse(st.fact(k)) : undefined);
  const I = R.use(
    L.mkInterp(p, {
      debugEnabled: false,
      opts: { K: 32, maxElems: 60, maxSteps: 4e5, stringifyThrows: false },
      stub(node, info) {
        if (!info || L.fnNameOf(node) !== "generateUUID") return null;
        const n = (info.st.fact("uuids") || 0) + 1;
        info.st.setFact("uuids", n);
        return C("uuid" + n);
      },
      onCall(info) {
        const { callee, st, args } = info;
        if (callee.k === "bi" && callee.name === "JSON.stringify") {
          const n = (st.fact("jsons") || 0) + 1;
          st.setFact("jsons", n);
          const text = JSON.stringify(readConst(st, args[0]));
          return S("json" + n + ":" + text, { label: "json", ty: { kind: "string", nullable: false }, data: text });
        }
        if (callee.k === "bi" && callee.name === "JSON.parse") {
          const m = isConst(args[0]) && /^response(\d+)$/.exec(constOf(args[0]));
          if (!m) return null;
          const ids = J(st, "ids" + m[1]) || [];
          const r = calls[m[1]].answer || "ok";
          return konst(I, st, "pr" + m[1], { successes: r === "errors" ? [] : ids.map((id) => ({ id, status: 201 })), errors: r === "errors" ? ids.map((id) => ({ id, status: 400 })) : [] });
        }
        const id = callee.id || "";
        let m;
        if ((m = /^text:(\d+)$/.exec(id))) return [{ k: "ret", v: I.alloc(st, "textp" + m[1], I.resolvedRec(C("response" + m[1]))), st }];
        if ((m = /^userFetch:(\d+)$/.exec(id))) {
          const b = single(prop(st, args[1] || UNDEF, "body") || UNDEF);
          const req = b && b.data ? JSON.parse(b.data) : {};
          const ev = req.batch || [];
          const i = ev.length ? calls.findIndex((c, j) => (sharedBody ? j === st.fact("calling") : c.body.name === ev[ev.length - 1].body.name)) : -1;
          if (!R.ob(tag + ":known-score", i >= 0, "a request carries no score of the caller", where(I, info))) return null;
          st.setFact("fetched" + i, (st.fact("fetched" + i) || 0) + 1);
          st.setFact("req" + i, JSON.stringify({ client: +m[1], url: readConst(st, args[0]), headers: readConst(st, prop(st, args[1], "headers")), batch: ev }));
          st.setFact("ids" + i, JSON.stringify(ev.map((e) => e.id)));
          const fail = calls[i].answer === "network";
          const res = obj(I, st, "resp" + i, { ok: C(calls[i].answer !== "500"), status: C(calls[i].answer === "500" ? 500 : 207), text: S("text:" + i, { label: "text", ty: FN }) });
          return [{ k: "ret", v: I.alloc(st, "fetchp" + i, fail ? { ...I.promRec("rejected"), v: ERR } : I.promRec("ext", { token: "fetchp" + i, mayReject: false, label: "fetch", okVal: res })), st }];
        }
        return null;
      },
    }),
  );
  let cur = [{ st: new L.State(), cs: [] }];
  clients.forEach((o, i) => (cur = cur.flatMap((x) => L.newInstance(I, x.st, L.findClass(p, "browser", "LangfuseBrowserClient"), [konst(I, x.st, "opts" + i, { ...o, fetch: { $v: S("userFetch:" + i, { label: "fetch", ty: FN, user: true }) } })], "client" + i).map((c) => ({ st: c.st, cs: [...x.cs, c.v] })))));
  const bodies = calls.map((c, i) => (sharedBody && i ? null : konst(I, cur[0].st, "body" + i, c.body)));
  const bodyOf = (i) => (sharedBody ? bodies[0] : bodies[i]);
  const done = (q, i) => {
    q.st.setFact("kind" + i, q.k === "ret" ? "fulfil" : "reject");
    q.st.setFact("res" + i, JSON.stringify(readConst(q.st, q.v) || null));
    return q.st;
  };
  const begin = (x, i) => (x.st.setFact("calling", i), L.invoke(I, x.st, x.cs[calls[i].client || 0], "score", [bodyOf(i)], "score" + i).map((o) => ({ st: o.st, cs: x.cs, ps: { ...x.ps, [i]: o } })));
  const end = (x, i) => (x.ps[i].k !== "ret" ? [{ ...x, st: done({ ...x.ps[i], st: x.st }, i) }] : I.awaitVal(x.st, x.ps[i].v, null, L.root).map((q) => ({ ...x, st: done(q, i) })));
  const order = calls.map((_, i) => i);
  if (overlapping) {
    for (const i of order) cur = cur.flatMap((x) => begin(x, i));
    for (const i of order.reverse()) cur = cur.flatMap((x) => end(x, i));
  } else for (const i of order) cur = cur.flatMap((x) => begin(x, i)).flatMap((x) => end(x, i));
  R.entry(tag);
  R.ob(tag + ":reached", cur.length > 0, "the calls never settle");
  for (const { st } of cur) {
    const seen = new Set(), evs = new Set();
    calls.forEach((c, i) => {
      const t = `${tag}:score ${i + 1}`, o = clients[c.client || 0];
      const req = J(st, "req" + i) || { batch: [] }, ev = req.batch[0] || { body: {} };
      R.ob(t + ":one-request", st.fact("fetched" + i) === 1 && req.batch.length === 1, `${st.fact("fetched" + i) || 0} requests with ${req.batch.length} events are sent`);
      R.ob(t + ":client", req.client === (c.client || 0) && req.url === o.baseUrl + "/api/public/ingestion" && (req.headers || {}).Authorization === "Bearer " + o.publicKey, `the request goes to ${req.url}`);
      const { id, environment, ...rest } = ev.body, { id: gid, environment: ge, ...want } = c.body;
      R.ob(t + ":fields", canon(rest) === canon(want) && canon(environment) === canon(ge === undefined ? o.environment : ge), `the score is sent as ${canon(ev.body)}`);
      R.ob(t + ":id", gid !== undefined ? id === gid : /^uuid/.test(id) && !seen.has(id), `the score is sent with the id ${id}`);
      R.ob(t + ":event-id", ev.id !== undefined && !evs.has(ev.id), `the event is sent with the id ${ev.id} of another event`);
      seen.add(id), evs.add(ev.id);
      const bad = c.answer && c.answer !== "ok";
      R.ob(t + ":outcome", st.fact("kind" + i) === (bad ? "reject" : "fulfil"), `the call ends with ${st.fact("kind" + i)}`);
      if (!bad) R.ob(t + ":result", (J(st, "res" + i) || {}).id === id, `the call fulfils with ${st.fact("res" + i)}`);
      R.ob(t + ":body-kept", canon(readConst(st, bodyOf(i))) === canon(c.body), `the caller's score becomes ${canon(readConst(st, bodyOf(i)))}`);
    });
  }
}
const response = (status, text, textFails) => (I, st) => {
  st.setFact("text", text);
  if (textFails) st.setFact("textFails", true);
  const r = obj(I, st, "resp", { ok: C(status >= 200 && status < 300), status: C(status), text: S("resp.text", { label: "text", ty: FN }), json: S("resp.json", { label: "json", ty: FN }) });
  return [{ k: "ret", v: I.alloc(st, "fetchp", I.resolvedRec(r)), st }];
};
const ok = response(207, "{json}");
const good = (I, st, id) => obj(I, st, "pr", { successes: arr(I, st, "prs", [obj(I, st, "s1", { id, status: C(201) })]), errors: arr(I, st, "pre", []) });
const pk = () => L.symStr("pk");
const opts = (extra = {}) => (I, st) => {
  I.addRefine(st, single(pk()), { t: true });
  const e = typeof extra === "function" ? extra(I, st) : extra;
  return obj(I, st, "opts", { publicKey: pk(), fetch: S("userFetch", { label: "fetch", ty: FN, user: true }), ...e });
};
module.exports = {
  id: "P41",
  title: "the browser client reports a score as created exactly when Langfuse confirmed it",
  rule: "For every score body, option and outcome of fetch (rejection, failing status, empty, malformed or unexpected body, partial errors, missing confirmation): exactly one POST with one score event that carries the caller's fields goes to the ingestion endpoint of the base URL, with the SDK's own authorization and identification headers whatever the additional headers; score() fulfils with the score's id exactly if the response confirms this event without errors and rejects otherwise, with a LangfuseBrowserError that carries the status, response or original error",
  assumptions: ["fetch, Response.text and JSON behave as specified"],
  min: 150,
  run(p, R) {
    const body = (I, st) => obj(I, st, "body", { name: L.symStr("name"), value: C(0), traceId: L.symStr("traceId"), comment: NULL, id: L.symStr("givenId"), metadata: S("md", { label: "md", ty: OBJ }) });
    const P = (st, q, k) => prop(st, q.v, k);
    const rejects = (tag, want = {}) => (q, X) => {
      R.ob(tag + ":rejects", q.kind === "reject", `score() fulfils although the score was not stored`);
      if (q.kind !== "reject" || want.raw) return;
      if (!R.ob(tag + ":error", X.isErr(q), `score() rejects with ${lab(q.v)}`)) return;
      for (const [k, f] of Object.entries(want)) R.ob(`${tag}:error-${k}`, f(P(q.st, q, k)), `the error's ${k} is ${lab(P(q.st, q, k))}`);
    };
    const F = (tag, outcome, parsed, check, extra = {}) => run(p, R, tag, { options: opts(), body, outcome, parsed, check, ...extra });
    F("network failure", (I, st) => [{ k: "ret", v: I.alloc(st, "fetchp", { ...I.promRec("rejected"), v: ERR }), st }], null, rejects("network failure", { originalError: (v) => v === ERR }));
    F("fetch throws", (I, st) => [{ k: "throw", v: ERR, st }], null, rejects("fetch throws", { originalError: (v) => v === ERR }));
    for (const s of [199, 300, 304, 400, 401, 404, 429, 500, 503]) {
      F(`status ${s}, empty`, response(s, ""), null, rejects(`status ${s}, empty`, { status: (v) => v === C(s) }));
      F(`status ${s}, json`, response(s, "{json}"), good, rejects(`status ${s}, json`, { status: (v) => v === C(s), response: (v) => v && v !== UNDEF }));
      F(`status ${s}, html`, response(s, "<html>"), null, rejects(`status ${s}, html`, { status: (v) => v === C(s), response: (v) => v === C("<html>") }));
      F(`status ${s}, broken`, response(s, "x", true), null, rejects(`status ${s}, broken`, { status: (v) => v === C(s) }));
    }
    for (const s of [200, 201, 202, 204, 206, 207, 299]) F(`ok ${s}, empty`, response(s, ""), null, rejects(`ok ${s}, empty`));
    F("ok, broken", response(200, "x", true), null, rejects("ok, broken", { originalError: (v) => v === ERR }));
    F("ok, not json", response(200, "<html>"), null, rejects("ok, not json", {}));
    const bad = {
      null: () => NULL, number: () => C(1), string: () => C("ok"), array: (I, st) => arr(I, st, "pr", []), object: (I, st) => obj(I, st, "pr"), "no errors": (I, st, id) => obj(I, st, "pr", { successes: arr(I, st, "prs", [obj(I, st, "s1", { id })]) }), "no successes": (I, st) => obj(I, st, "pr", { errors: arr(I, st, "pre", []) }), "null lists": (I, st) => obj(I, st, "pr", { successes: NULL, errors: NULL }),
      "object lists": (I, st, id) => obj(I, st, "pr", { successes: obj(I, st, "s1", { id }), errors: obj(I, st, "e1", {}) }), "null errors": (I, st, id) => obj(I, st, "pr", { successes: arr(I, st, "prs", [obj(I, st, "s1", { id })]), errors: NULL }),
      "nothing confirmed": (I, st) => obj(I, st, "pr", { successes: arr(I, st, "prs", []), errors: arr(I, st, "pre", []) }), "another confirmed": (I, st) => obj(I, st, "pr", { successes: arr(I, st, "prs", [obj(I, st, "s1", { id: C("other"), status: C(201) })]), errors: arr(I, st, "pre", []) }),
    };
    for (const [n, m] of Object.entries(bad)) F("ok, " + n, ok, m, rejects("ok, " + n));
    const errs = (I, st, id, both) => obj(I, st, "pr", { successes: arr(I, st, "prs", both ? [obj(I, st, "s1", { id })] : []), errors: arr(I, st, "pre", [obj(I, st, "e1", { id, status: C(400) })]) });
    for (const both of [false, true]) F("errors" + (both ? " and confirmed" : ""), ok, (I, st, id) => errs(I, st, id, both), rejects("errors" + (both ? " and confirmed" : ""), { errors: (v) => v && v !== UNDEF }));
    F("errors of another and confirmed", ok, (I, st, id) => obj(I, st, "pr", { successes: arr(I, st, "prs", [obj(I, st, "s1", { id, status: C(201) })]), errors: arr(I, st, "pre", [obj(I, st, "e1", { id: C("other"), status: C(400) })]) }), rejects("errors of another and confirmed", { errors: (v) => v && v !== UNDEF }));
    // success
    const fulfils = (tag, idw) => (q) => {
      R.ob(tag + ":fulfils", q.kind === "fulfil", `score() rejects a stored score with ${lab(q.v)}`);
      if (q.kind === "fulfil") R.ob(tag + ":id", idw(prop(q.st, q.v, "id"), q.st), `score() returns the id ${lab(prop(q.st, q.v, "id"))}`);
    };
    const given = (v) => lab(v) === "givenId";
    const fields = (tag, env, idw) => (st, b, w) => {
      R.ob(tag + ":fields", lab(prop(st, b, "name")) === "name" && prop(st, b, "value") === C(0) && lab(prop(st, b, "traceId")) === "traceId" && prop(st, b, "comment") === NULL && lab(prop(st, b, "metadata")) === "md", "the score's fields are not those of the caller", w);
      R.ob(tag + ":env", env(prop(st, b, "environment")), `the environment is ${lab(prop(st, b, "environment"))}`, w);
      R.ob(tag + ":body-id", idw(prop(st, b, "id"), st), `the score is sent with id ${lab(prop(st, b, "id"))}`, w);
    };
    const second = (I, st, id) => obj(I, st, "pr", { successes: arr(I, st, "prs", [obj(I, st, "s0", { id: C("other") }), obj(I, st, "s1", { id })]), errors: arr(I, st, "pre", []) });
    for (const [n, m] of Object.entries({ confirmed: good, "confirmed among others": second })) F(n, ok, m, fulfils(n, given), { onFetch: fields(n, (v) => !v || v === UNDEF, given) });
    const noId = (I, st) => { const b = body(I, st), r = st.rec(single(b)), ps = new Map(r.props); ps.delete("id"); st.setRec(single(b), { ...r, props: ps }); return b; };
    let sent;
    F("generated id", ok, good, fulfils("generated id", (v) => /^"uuid\d"$/.test(lab(v)) && lab(v) === sent), { body: noId, onFetch: fields("generated id", () => true, (v) => /^"uuid\d"$/.test((sent = lab(v)))) });
    const withEnv = (I, st) => { const b = body(I, st), r = st.rec(single(b)), ps = new Map(r.props); ps.set("environment", C("score-env")); st.setRec(single(b), { ...r, props: ps }); return b; };
    const eo = opts({ environment: C("client-env") });
    F("client environment", ok, good, fulfils("client environment", given), { options: eo, onFetch: fields("client environment", (v) => v === C("client-env"), given) });
    F("score environment", ok, good, fulfils("score environment", given), { options: eo, body: withEnv, onFetch: fields("score environment", (v) => v === C("score-env"), given) });
    // addresses
    for (const [n, u, want] of [["default", null, "https://cloud.langfuse.com"], ["plain", "https://h", "https://h"], ["slash", "https://h/", "https://h"], ["slashes", "https://h//", "https://h"], ["path", "https://h/p/", "https://h/p"]])
      F("address " + n, ok, good, (q, X) => (fulfils("address " + n, given)(q), R.ob(`address ${n}:url`, X.url === C(want + "/api/public/ingestion"), `the request goes to ${lab(X.url)}`)), { options: opts(u ? { baseUrl: C(u) } : {}) });
    // additional headers
    for (const h of ["Authorization", "authorization", "AUTHORIZATION", "Content-Type", "content-type", "x-langfuse-public-key", "X-Langfuse-Public-Key", "X-LANGFUSE-SDK-NAME", "x-langfuse-sdk-version", "X-Langfuse-Sdk-Integration"])
      F("header " + h, ok, good, (q, X) => (fulfils("header " + h, given)(q), R.ob(`header ${h}:extra`, X.headers["x-custom"] === C("c"), "another additional header is lost")), { options: opts((I, st) => ({ additionalHeaders: obj(I, st, "ah", { [h]: C("evil"), "X-Custom": C("c") }) })) });
    // construction
    for (const [n, v] of [["missing", UNDEF], ["empty", C("")]])
      run(p, R, `public key ${n}`, { options: (I, st) => obj(I, st, "opts", { publicKey: v, fetch: S("userFetch", { label: "fetch", ty: FN }) }), check: (q, X) => R.ob(`public key ${n}:throws`, q.kind === "throws" && X.isErr(q), "a client without public key is constructed") });
    run(p, R, "construct", { options: opts(), check: (q) => R.ob("construct:ok", q.kind === "constructed", "the constructor throws") });
    // histories
    const c1 = { publicKey: "pk1", baseUrl: "https://one", environment: "env1" }, c2 = { publicKey: "pk2", baseUrl: "https://two" };
    const b = (name, more) => ({ name, value: 1, traceId: "t-" + name, ...more });
    for (const overlapping of [false, true]) {
      const o = overlapping ? ", overlapping" : "";
      session(p, R, "several scores" + o, { overlapping, clients: [c1], calls: [{ body: b("a") }, { body: b("b", { id: "given", environment: "own" }) }, { body: b("c", { comment: "x" }) }] });
      session(p, R, "failures between" + o, { overlapping, clients: [c1], calls: [{ body: b("a"), answer: "network" }, { body: b("b") }, { body: b("c"), answer: "errors" }, { body: b("d"), answer: "500" }, { body: b("e") }] });
      session(p, R, "two clients" + o, { overlapping, clients: [c1, c2], calls: [{ body: b("a") }, { body: b("b"), client: 1 }, { body: b("c", { id: "g" }) }] });
      session(p, R, "one body twice" + o, { overlapping, sharedBody: true, clients: [c1, c2], calls: [{ body: b("a") }, { body: b("a"), client: 1 }, { body: b("a") }] });
    }
  },
};
