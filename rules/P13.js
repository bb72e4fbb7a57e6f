"use strict";
const { L, V, prop } = require("./_common.js");
const { mkPrompts } = require("./_prompt.js");
const { S, C, UNDEF, single } = V;
module.exports = {
  id: "P13",
  title: "the prompt fallback is used only when fetching fails, marked as fallback and never cached",
  rule: "For every fetch outcome: success returns the fetched prompt, not marked as fallback; failure with a fallback returns the fallback content under the requested name, marked as fallback, and stores nothing; failure without a fallback rejects with the fetch error",
  assumptions: ["text and chat prompts; the fallback of a chat prompt has one message with unknown fields"],
  min: 10,
  run(p, R) {
    for (const type of ["text", "chat", "default"])
      for (const fb of [true, false])
        for (const sel of [{}, { label: C("staging") }, { version: C(7) }]) {
          const t = type === "default" ? "text" : type;
          const tag = `${type}:${fb ? "fallback" : "no-fallback"}:${Object.keys(sel)[0] || "plain"}`;
          const X = mkPrompts(p, R, t);
          const { I } = X;
          R.entry("get with failing/succeeding fetch, " + tag);
          const msg = L.mkObj(I, X.st, "fbmsg", { role: S("fb.role"), content: L.symStr("fb.content") });
          const f = t === "chat" ? L.mkArr(I, X.st, "fbarr", [msg]) : S("fb.text", { label: "fb.text", ty: { kind: "string", nullable: false } });
          if (t !== "chat") I.addRefine(X.st, single(f), { t: true });
          const o = { ...(type === "default" ? {} : { type: C(type) }), ...(fb ? { fallback: f } : {}), ...sel };
          let n = 0;
          for (const r of X.get(X.st, "p", o)) {
            n++;
            const failed = r.st.fact("settled1") === "failed";
            if (!failed) {
              R.ob(tag + ":success-value", r.k === "ret" && r.version === 1001, "a successful fetch is not what the lookup returns");
              if (r.k === "ret") R.ob(tag + ":success-not-fallback", prop(r.st, r.v, "isFallback") === C(false), "a fetched prompt is marked as fallback");
              continue;
            }
            if (!fb) {
              R.ob(tag + ":error-surfaces", r.k === "throw" && /rej:get1|get1/.test(L.labelsOf(r.v) + r.v.key), `a failed fetch without fallback does not reject with the fetch error (${r.k} ${L.labelsOf(r.v)})`);
              continue;
            }
            if (!R.ob(tag + ":fallback-returned", r.k === "ret" && single(r.v) && r.st.rec(single(r.v)), "a failed fetch with a fallback does not return the fallback")) continue;
            R.ob(tag + ":marked", prop(r.st, r.v, "isFallback") === C(true), "the fallback prompt is not marked as fallback");
            R.ob(tag + ":name", prop(r.st, r.v, "name") === C("p"), "the fallback prompt does not carry the requested name");
            R.ob(tag + ":type", prop(r.st, r.v, "type") === C(t), "the fallback prompt has the wrong type");
            const body = prop(r.st, r.v, "prompt");
            if (t === "chat") {
              const arr = body && single(body) && r.st.rec(single(body));
              const m = arr && arr.elems && arr.elems.length === 1 ? arr.elems[0].v : null;
              R.ob(tag + ":content", m && prop(r.st, m, "content") === L.symStr("fb.content") && prop(r.st, m, "role") === S("fb.role"), "the fallback messages are not what the caller gave");
            } else R.ob(tag + ":content", body === f, "the fallback text is not what the caller gave");
            for (const d of X.drain(r.st.clone())) R.ob(tag + ":no-unhandled", !I.unhandled(d).length, "a rejected promise is left without a handler");
            for (const r2 of X.get(r.st.clone(), "p", o)) {
              R.ob(tag + ":not-cached", X.gets(r2.st) === 2, "after a fallback the next lookup is not fetched: the fallback was cached");
              if (r2.st.fact("settled2") === "ok") R.ob(tag + ":recovers", r2.k === "ret" && r2.version === 1002, "after a fallback a successful fetch is not returned");
            }
          }
          // a lookup that bypasses a cached prompt fails over in the same way
          if (fb) {
            const Y = mkPrompts(p, R, t);
            const f2 = t === "chat" ? L.mkArr(Y.I, Y.st, "fbarr", [L.mkObj(Y.I, Y.st, "fbmsg", { role: S("fb.role"), content: L.symStr("fb.content") })]) : C("fb text");
            const o2 = { ...(type === "default" ? {} : { type: C(type) }), ...sel };
            for (const r of Y.get(Y.st, "p", o2)) {
              if (r.k !== "ret") continue;
              for (const z of Y.get(r.st.clone(), "p", { ...o2, cacheTtlSeconds: C(0), fallback: f2 })) {
                if (z.st.fact("settled2") !== "failed") continue;
                R.ob(tag + ":bypass-fallback", z.k === "ret" && prop(z.st, z.v, "isFallback") === C(true), "a failed lookup with time to live 0 and a fallback does not return the fallback when an older prompt is cached");
              }
            }
            // no failure, no fallback: cached and stale prompts are returned as they are
            const W2 = mkPrompts(p, R, t);
            const f3 = t === "chat" ? L.mkArr(W2.I, W2.st, "fbarr", [L.mkObj(W2.I, W2.st, "fbmsg", { role: S("fb.role"), content: L.symStr("fb.content") })]) : C("fb text");
            W2.now = 1000;
            for (const r of W2.get(W2.st, "p", { ...o2, fallback: f3 })) {
              if (r.st.fact("settled1") !== "ok") continue;
              for (const later of [1000, 1e7]) {
                W2.now = 1000 + later;
                for (const z of W2.get(r.st.clone(), "p", { ...o2, fallback: f3 })) R.ob(`${tag}:cached-not-fallback`, z.k === "ret" && z.version === 1001 && prop(z.st, z.v, "isFallback") === C(false), `a lookup with a ${later > 60000 ? "stale" : "fresh"} cached prompt does not return it when a fallback is given`);
              }
              W2.now = 1000;
            }
            if (t === "chat") {
              const Z = mkPrompts(p, R, t);
              for (const r of Z.get(Z.st, "p", { ...o2, fallback: L.mkArr(Z.I, Z.st, "fb0", []) })) {
                if (r.st.fact("settled1") !== "failed") continue;
                const b = r.k === "ret" && prop(r.st, r.v, "prompt"), br = b && single(b) && r.st.rec(single(b));
                R.ob(tag + ":empty-fallback", r.k === "ret" && prop(r.st, r.v, "isFallback") === C(true) && prop(r.st, r.v, "type") === C("chat") && br && br.elems && br.elems.length === 0, "an empty chat fallback is not returned as an empty chat prompt");
              }
            }
          }
          R.ob(tag + ":reached", n >= 2, "success and failure of the fetch were not both followed");
        }
  },
};
