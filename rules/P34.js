"use strict";
const { L, V, prop, where } = require("./_common.js");
const { runFetcher } = require("./_http.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const RETRY = [408, 429, 500, 502, 503, 504, 599];
const NORETRY = [200, 201, 204, 304, 399, 400, 401, 403, 404, 405, 407, 409, 422, 428, 430, 499];
const TMO = C(7777);
module.exports = {
  id: "P34",
  title: "a request is retried exactly on 408, 429 and 5xx, bounded, with timeout and abort on every attempt",
  rule: "For every response status (boundaries of the ranges), retry budget, Retry-After value and failure at any attempt: the number of fetch calls is one plus one per retryable response up to the budget (default 2); a network failure, timeout or abort is not retried; each retry follows an awaited wait of what Retry-After asks, at most 60 s, or a positive back-off; every attempt gets the same URL, method, headers and body, and a signal that aborts with the caller's signal and with the timeout; no timeout timer is left running after its attempt",
  assumptions: ["fetch rejects with the reason of its signal when that is aborted", "timers fire after their delay"],
  min: 80,
  run(p, R) {
    const url = L.symStr("url"), method = L.symStr("method"), body = S("body", { label: "body", ty: OBJ });
    const base = (extra) => (I, st, sig) => ({
      url, method, body, requestType: C("json"), contentType: C("application/json"), timeoutMs: TMO, abortSignal: sig,
      headers: L.mkObj(I, st, "headers", { Authorization: S("auth", { label: "auth", ty: { kind: "string", nullable: false } }) }), ...extra,
    });
    const go = (tag, cfg) => {
      let first = null, last = null, reached = 0;
      const X = runFetcher(p, R, tag, {
        timeoutMs: TMO,
        ...cfg,
        onFetch(f) {
          const g = (k) => prop(f.st, f.init, k);
          const sn = { url: f.url, method: g("method"), body: g("body"), auth: g("headers") && prop(f.st, g("headers"), "Authorization"), ct: g("headers") && prop(f.st, g("headers"), "Content-Type") };
          const w = where(f.I, f.info);
          R.ob(tag + ":signal", !!f.sid, "the attempt has no abort signal", w);
          if (cfg.userAborted && f.sid) R.ob(tag + ":signal-aborted", prop(f.st, prop(f.st, f.init, "signal"), "aborted") === C(true), "a request of a caller who already aborted is sent with a signal that is not aborted", w);
          if (!first) {
            first = sn;
            R.ob(tag + ":url", L.labelsOf(f.url) === "url", `the request goes to ${L.labelsOf(f.url)}`, w);
            R.ob(tag + ":method", sn.method === method, `the method is ${L.labelsOf(sn.method || UNDEF)}`, w);
            R.ob(tag + ":auth", sn.auth && L.labelsOf(sn.auth) === "auth", "the headers are not sent", w);
          } else for (const k of Object.keys(sn)) R.ob(`${tag}:same-${k}`, sn[k] === first[k], `attempt ${f.n} sends another ${k}: ${L.labelsOf(sn[k] || UNDEF)}`, w);
          if (f.n > 1) {
            R.ob(tag + ":waits", f.unwaited.length === 0 && f.waits.length === 1, f.unwaited.length ? "the next attempt does not wait for the delay" : `${f.waits.length} waits before the attempt`, w);
            if (cfg.delay && f.waits.length === 1) {
              const d = f.waits[0];
              R.ob(tag + ":delay", isConst(d) && cfg.delay(constOf(d), f.n - 1), `the wait is ${L.labelsOf(d)} ms`, w);
              if (cfg.delay === okBackoff && isConst(d)) {
                if (last && f.n === last.n + 1 && last.d < 50000) R.ob(tag + ":back-off-grows", constOf(d) > last.d * 1.5, `the back-off does not grow: ${last.d} ms, then ${constOf(d)} ms`, w);
                last = { n: f.n, d: constOf(d) };
              }
            }
          }
        },
      });
      for (const q of X.outs) {
        reached++;
        R.ob(tag + ":settles", q.k === "ret", `the HTTP layer throws ${L.labelsOf(q.v)}`);
        const n = q.st.fact("n") || 0;
        R.ob(tag + ":attempts", n === cfg.attempts, `${n} attempts instead of ${cfg.attempts}`);
        R.ob(tag + ":timers", X.pending(q.st).length === 0, "a timer is still running after the request ended");
      }
      R.ob(tag + ":reached", reached > 0, "the request never ends");
      R.entry(tag);
    };
    const okBackoff = (d, k) => d > 0 && d <= 72000 && d >= 500;
    for (const s of NORETRY) go("status" + s, { args: base({}), script: () => ({ status: s, body: s === 204 || s === 304 ? null : "json" }), attempts: 1 });
    for (const s of RETRY) {
      go(`status${s}-then-200`, { args: base({}), script: (n) => ({ status: n === 1 ? s : 200 }), attempts: 2, delay: okBackoff });
      go(`status${s}-always`, { args: base({}), script: () => ({ status: s }), attempts: 3, delay: okBackoff });
    }
    for (const r of [0, 1, 4]) go(`maxRetries${r}`, { args: base({ maxRetries: C(r) }), script: () => ({ status: 503 }), attempts: 1 + r, delay: okBackoff });
    go("status503-then-404", { args: base({}), script: (n) => ({ status: n === 1 ? 503 : 404 }), attempts: 2 });
    for (const rnd of [0, 0.999999]) go("backoff-rand" + rnd, { args: base({ maxRetries: C(9) }), rand: rnd, script: () => ({ status: 500 }), attempts: 10, delay: okBackoff });
    for (const [v, d] of [["1", 1000], ["5", 5000], ["60", 60000], ["61", 60000], ["3600", 60000]]) go("retryAfter" + v, { args: base({}), script: (n) => (n === 1 ? { status: 429, headers: { "retry-after": v } } : { status: 200 }), attempts: 2, delay: (x) => x === d });
    for (const [v, d] of [["Sun, 09 Sep 2001 01:46:50 GMT", 10000], ["Sun, 09 Sep 2001 02:46:50 GMT", 60000]]) go("retryAfter-date+" + d, { args: base({}), now: 1e12, script: (n) => (n === 1 ? { status: 429, headers: { "retry-after": v } } : { status: 200 }), attempts: 2, delay: (x) => x === d });
    for (const v of ["0", "Sun, 09 Sep 2001 01:46:30 GMT", "-5", "soon"]) go("retryAfter" + v, { args: base({}), now: 1e12, script: (n) => (n === 1 ? { status: 429, headers: { "retry-after": v } } : { status: 200 }), attempts: 2, delay: okBackoff });
    for (const rnd of [0, 0.999999]) {
      go("rateLimitReset+10s-rand" + rnd, { args: base({}), now: 1e12, rand: rnd, script: (n) => (n === 1 ? { status: 429, headers: { "x-ratelimit-reset": "1000000010" } } : { status: 200 }), attempts: 2, delay: (x) => x >= 10000 && x <= 12000 });
      go("rateLimitReset+1h-rand" + rnd, { args: base({}), now: 1e12, rand: rnd, script: (n) => (n === 1 ? { status: 429, headers: { "x-ratelimit-reset": "1000003600" } } : { status: 200 }), attempts: 2, delay: (x) => x >= 60000 && x <= 72000 });
      go("rateLimitReset-past-rand" + rnd, { args: base({}), now: 1e12, rand: rnd, script: (n) => (n === 1 ? { status: 429, headers: { "x-ratelimit-reset": "999999999" } } : { status: 200 }), attempts: 2, delay: okBackoff });
    }
    const netErr = (I, st) => L.mkObj(I, st, "netErr", { name: C("TypeError"), message: C("fetch failed") }, { ext: "TypeError" });
    const thrown = () => S("thrown", { label: "thrown", ty: { kind: "any", nullable: true } });
    for (const at of [1, 2]) {
      const pre = (o) => (n) => (n < at ? { status: 503 } : o);
      for (const userSignal of [false, true]) {
        const t = (x) => `${x}@${at}${userSignal ? "+signal" : ""}`;
        go(t("network-error"), { userSignal, args: base({}), script: pre({ reject: netErr }), attempts: at });
        go(t("thrown-value"), { userSignal, args: base({}), script: pre({ reject: thrown }), attempts: at });
        go(t("timeout"), { userSignal, args: base({}), script: pre({ timeout: true }), attempts: at });
      }
      go(`abort-with-reason@${at}`, { userSignal: true, args: base({}), script: pre({ abort: true, reason: netErr }), attempts: at });
      go(`abort@${at}`, { userSignal: true, args: base({}), script: pre({ abort: true }), attempts: at });
    }
    go("aborted-before", { userSignal: true, userAborted: true, args: base({}), script: () => ({ status: 200 }), attempts: 1 });
    go("no-timeout", { args: base({ timeoutMs: UNDEF }), script: () => ({ status: 200 }), attempts: 1 });
  },
};
