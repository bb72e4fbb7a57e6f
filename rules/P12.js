"use strict";
const { L, V } = require("./_common.js");
const { mkPrompts } = require("./_prompt.js");
const { S, C, UNDEF } = V;
module.exports = {
  id: "P12",
  title: "prompt lookups: fresh from cache, stale while one refresh runs, otherwise fetched",
  rule: "Over the listed lookup histories with a controlled clock and a server that may fail at every call: a lookup within the TTL is answered with the last successfully fetched prompt and without a request; an expired one is answered at once with the stale prompt while at most one background refresh per selection runs, whose failure is contained and whose success replaces the entry; everything else is fetched, and TTL 0 always fetches; different name/label/version selections never share an entry; the request carries name, version, label, retries and timeout unchanged",
  assumptions: ["clock values are sampled on both sides of each TTL (default 60 s, 5 s, 0 s)", "text and chat prompts"],
  min: 20,
  run(p, R) {
    for (const type of ["text", "chat"]) {
      // --- histories on one selection
      for (const [ttlName, ttl] of [["default", undefined], ["5s", 5]]) {
        const T = (ttl === undefined ? 60 : ttl) * 1000;
        const opts = (o = {}) => ({ type: C(type), ...(ttl !== undefined ? { cacheTtlSeconds: C(ttl) } : {}), ...o });
        const tag = `${type}:${ttlName}`;
        const X = mkPrompts(p, R, type);
        const { I } = X;
        R.entry(`get/get/expire/get/get history, ${tag}`);
        X.now = 1000000;
        const first = X.get(X.st, "p", opts());
        R.ob(`${tag}:first-fetches`, first.length > 0 && first.every((r) => X.gets(r.st) === 1), "the first lookup does not issue exactly one request");
        for (const r of first) {
          if (r.k !== "ret") {
            // failed: nothing cached, next lookup asks again
            for (const r2 of X.get(r.st, "p", opts())) {
              R.ob(`${tag}:failure-not-cached`, X.gets(r2.st) === 2, "after a failed fetch the next lookup is not fetched");
              if (r2.k === "ret") R.ob(`${tag}:second-after-failure`, r2.version === 1002, "a lookup after a failed fetch does not return the fetched prompt");
            }
            continue;
          }
          R.ob(`${tag}:first-value`, r.version === 1001, "the first lookup does not return the fetched prompt");
          X.now = 1000000 + T - 1;
          const fresh = X.get(r.st.clone(), "p", opts());
          for (const f of fresh) R.ob(`${tag}:fresh`, f.k === "ret" && f.version === 1001 && X.gets(f.st) === 1, "a lookup within the TTL is not answered from the cache");
          X.now = 1000000 + T + 1;
          // expired
          for (const s1 of X.get(r.st.clone(), "p", opts())) {
            R.ob(`${tag}:stale-value`, s1.k === "ret" && s1.version === 1001, "an expired lookup does not return the stale prompt");
            R.ob(`${tag}:stale-refreshes`, X.gets(s1.st) === 2, `an expired lookup issues ${X.gets(s1.st) - 1} refresh requests`);
            R.ob(`${tag}:stale-not-blocking`, !s1.st.fact("settled2"), "an expired lookup waits for the refresh");
            for (const s2 of X.get(s1.st.clone(), "p", opts())) {
              R.ob(`${tag}:single-flight`, X.gets(s2.st) === 2, "a second refresh is started while one is running");
              R.ob(`${tag}:single-flight-value`, s2.k === "ret" && s2.version === 1001, "a lookup during the refresh does not return the stale prompt");
            }
            for (const s3 of X.drain(s1.st.clone())) {
              R.ob(`${tag}:refresh-contained`, !I.unhandled(s3).length, "a failing background refresh leaves an unhandled rejection");
              const ok = s3.fact("settled2") === "ok";
              for (const s4 of X.get(s3.clone(), "p", opts())) {
                if (ok) R.ob(`${tag}:refreshed`, s4.k === "ret" && s4.version === 1002 && X.gets(s4.st) === 2, "after a successful refresh the new prompt is not served from the cache");
                else {
                  R.ob(`${tag}:refresh-failed-value`, s4.k === "ret" && s4.version === 1001, "after a failed refresh the stale prompt is not served");
                  R.ob(`${tag}:refresh-retried`, X.gets(s4.st) === 3, "after a failed refresh the next lookup does not try again");
                }
              }
              if (ok) {
                X.now = 1000000 + T + 1 + T + 1;
                for (const s5 of X.get(s3.clone(), "p", opts())) R.ob(`${tag}:expires-again`, X.gets(s5.st) === 3 && s5.version === 1002, "a refreshed entry does not expire again");
                X.now = 1000000 + T + 1;
              }
            }
          }
          // an expired entry of another selection is refreshed by its own lookup
          X.now = 1000000;
          for (const other of [{ label: C("b") }, { version: C(4) }])
            for (const b of X.get(r.st.clone(), "p", opts(other))) {
              if (b.k !== "ret") continue;
              X.now = 1000000 + T + 1;
              for (const s1 of X.get(b.st.clone(), "p", opts())) for (const s2 of X.get(s1.st.clone(), "p", opts(other))) {
                R.ob(`${tag}:own-refresh`, X.gets(s2.st) === 4, "an expired lookup is not refreshed while another selection is being refreshed");
                R.ob(`${tag}:own-refresh-value`, s2.k === "ret" && s2.version === 1002, "an expired lookup does not return its own stale prompt");
              }
              X.now = 1000000;
            }
          // TTL 0 on a cached entry
          for (const z of X.get(r.st.clone(), "p", opts({ cacheTtlSeconds: C(0) }))) {
            R.ob(`${tag}:ttl0-fetches`, X.gets(z.st) === 2, "a lookup with TTL 0 is answered without a request");
            // what was fetched with TTL 0 is not kept as a fresh entry: the next lookup asks the server
            X.now += 10;
            if (z.k === "ret") for (const y of X.get(z.st.clone(), "p", { type: C(type) })) R.ob(`${tag}:ttl0-not-fresh`, X.gets(y.st) === 3, "after a lookup with TTL 0 the next one is answered without a request");
            X.now -= 10;
            if (z.k === "ret") R.ob(`${tag}:ttl0-value`, z.version === 1002, "a lookup with TTL 0 does not return the fetched prompt");
          }
        }
      }
      // --- selections never share entries
      const sel = [["p", {}], ["p", { label: C("a") }], ["p", { version: C(1) }], ["p", { version: C(11) }], ["p", { label: C("latest") }], ["pp", {}], ["p-1", {}], ["p", { label: C("1") }], ["p", { version: C(0) }], ["P", {}], ["p ", {}], ["p", { label: C("") }], ["p", { label: C("A") }], ["p", { label: C("a ") }]];
      for (let i = 0; i < sel.length; i++)
        for (let j = 0; j < sel.length; j++) {
          if (i === j) continue;
          const X = mkPrompts(p, R, type, { mayReject: false });
          const nm = (x) => x[0] + JSON.stringify(Object.fromEntries(Object.entries(x[1]).map(([k, v]) => [k, V.constOf(v)])));
          for (const r of X.get(X.st, sel[i][0], { type: C(type), ...sel[i][1] })) for (const r2 of X.get(r.st, sel[j][0], { type: C(type), ...sel[j][1] })) R.ob(`${type}:distinct`, X.gets(r2.st) === 2 && r2.version === 1002, `lookup ${nm(sel[j])} is answered with the cached prompt of ${nm(sel[i])}`);
        }
      // --- overlapping lookups of different selections: each gets the answer to its own request
      const pairs = [[["p", {}], ["p", { label: C("a") }]], [["p", { version: C(1) }], ["p", { version: C(2) }]], [["p", { label: C("a") }], ["p", { label: C("b") }]], [["p", {}], ["q", {}]]];
      for (const [a, b] of pairs)
        for (const order of ["ab", "ba"]) {
          const X = mkPrompts(p, R, type);
          let n = 0;
          for (const s1 of X.start(X.st, a[0], { type: C(type), ...a[1] }))
            for (const s2 of s1.k === "ret" ? X.start(s1.st, b[0], { type: C(type), ...b[1] }) : []) {
              if (s2.k !== "ret") continue;
              const [f, g] = order === "ab" ? [s1, s2] : [s2, s1];
              for (const r of X.settle(s2.st, f.v))
                for (const r2 of X.settle(r.st, g.v)) {
                  n++;
                  const [ra, rb] = order === "ab" ? [r, r2] : [r2, r];
                  R.ob(`${type}:overlapping-requests`, X.gets(r2.st) === 2, "of two overlapping lookups of different selections one makes no request");
                  for (const [i, x] of [ra, rb].entries()) {
                    const ok = r2.st.fact("settled" + (i + 1)) === "ok";
                    R.ob(`${type}:overlapping`, ok ? x.k === "ret" && x.version === 1001 + i : x.k === "throw", `of two overlapping lookups of different selections the ${i ? "second" : "first"} is answered with ${x.k === "ret" ? "prompt " + x.version : "an error"} although its request ${ok ? "answered " + (1001 + i) : "failed"}`);
                  }
                }
            }
          R.ob(`${type}:overlapping-reached`, n > 0, "overlapping lookups were not analysed");
        }
      // --- two managers of one process have nothing in common
      {
        const X = mkPrompts(p, R, type, { mayReject: false });
        let n = 0;
        for (const o of X.second(X.st))
          for (const r of X.start(o.st, "p", { type: C(type) }).flatMap((x) => X.settle(x.st, x.v)))
            for (const r2 of X.start(r.st, "p", { type: C(type) }, o.v).flatMap((x) => X.settle(x.st, x.v))) {
              n++;
              R.ob(`${type}:own-cache`, X.gets(r2.st) === 2 && r2.version === 1002, "a lookup is answered with what another client fetched");
            }
        R.ob(`${type}:own-cache-reached`, n > 0, "two managers were not analysed");
      }
      // --- TTL 0 while a refresh runs
      {
        const X = mkPrompts(p, R, type, { mayReject: false });
        let n = 0;
        X.now = 1000000;
        for (const r of X.get(X.st, "p", { type: C(type) })) {
          X.now = 1000000 + 60001;
          for (const s1 of X.get(r.st, "p", { type: C(type) }))
            for (const z of X.get(s1.st, "p", { type: C(type), cacheTtlSeconds: C(0) })) {
              n++;
              R.ob(`${type}:ttl0-during-refresh`, z.k === "ret" && z.version > 1001, "a lookup with TTL 0 during a refresh is answered with the stale prompt");
            }
        }
        R.ob(`${type}:ttl0-during-refresh-reached`, n > 0, "not analysed");
      }
      // --- request parameters
      const X = mkPrompts(p, R, type);
      const o = { type: C(type), version: S("version", { ty: { kind: "number", nullable: true } }), label: S("label", { ty: { kind: "string", nullable: true } }), maxRetries: S("retries", { ty: { kind: "number", nullable: true } }), fetchTimeoutMs: C(2500) };
      // the first lookup fetches, a lookup after expiry refreshes: the same request each time
      for (const r of X.get(X.st, L.symStr("name"), o)) {
        if (r.k !== "ret") continue;
        X.now = 1e9;
        X.get(r.st, L.symStr("name"), o);
        X.now = 0;
      }
      R.ob(`${type}:refresh-request`, X.calls.some((c) => c.n === 2), "no refresh request is issued");
      R.ob(`${type}:request`, X.calls.length > 0, "no request is issued");
      for (const c of X.calls) {
        const { prop } = require("./_common.js");
        R.ob(`${type}:request-name`, c.args[0] === L.symStr("name"), "the request is not made for the given name", c.W);
        R.ob(`${type}:request-version`, prop(c.st, c.args[1], "version") === o.version, "the given version is not requested", c.W);
        R.ob(`${type}:request-label`, prop(c.st, c.args[1], "label") === o.label, "the given label is not requested", c.W);
        R.ob(`${type}:request-retries`, c.args[2] && prop(c.st, c.args[2], "maxRetries") === o.maxRetries, "maxRetries is not passed on", c.W);
        R.ob(`${type}:request-timeout`, c.args[2] && prop(c.st, c.args[2], "timeoutInSeconds") === C(2.5), "fetchTimeoutMs is not passed on in seconds", c.W);
      }
    }
  },
};
