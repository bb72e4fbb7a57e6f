"use strict";
const { L, V, prop } = require("./_common.js");
const { mkPrompts } = require("./_prompt.js");
const { S, C, UNDEF, single } = V;
module.exports = {
  id: "P14",
  title: "updating or deleting a prompt invalidates all its cached selections",
  rule: "After update()/delete() of a name fulfils, every selection of that name cached before is fetched again on the next lookup; the write carries name, version, labels unchanged, precedes the invalidation, and its failure rejects",
  assumptions: ["up to three selections cached before the write"],
  min: 8,
  run(p, R) {
    const sels = [{}, { label: C("a") }, { version: C(3) }];
    for (const w of ["update", "delete"]) {
      for (const name of ["p", "folder/p-1"]) {
        const tag = `${w}:${name}`;
        const X = mkPrompts(p, R, "text", { mayReject: false });
        const { I } = X;
        R.entry(`get x3, ${w}, get x3 (${name})`);
        let sts = [X.st];
        for (const s of sels) sts = sts.flatMap((st) => X.get(st, name, s).map((r) => r.st));
        R.ob(tag + ":cached", sts.length > 0 && sts.every((s) => X.gets(s) === 3), "the selections are not cached independently");
        for (const st of sts) {
          const arg = w === "update" ? [L.mkObj(I, st, "upd", { name: C(name), version: C(3), newLabels: S("labels") })] : [C(name), L.mkObj(I, st, "upd", { version: S("v?"), label: S("l?") })];
          let ok = 0, bad = 0;
          for (const c of L.invoke(I, st, X.m, w, arg, w)) {
            if (c.k !== "ret") {
              R.ob(tag + ":no-sync-throw", false, `${w}() throws synchronously`);
              continue;
            }
            for (const r of I.awaitVal(c.st, c.v, null, L.root)) {
              const settled = r.st.fact("settledw1");
              R.ob(tag + ":one-write", r.st.fact("writes") === 1, `${w}() issues ${r.st.fact("writes") || 0} write requests`);
              if (settled !== "ok") {
                bad++;
                R.ob(tag + ":failure-rejects", r.k === "throw", `${w}() resolves although the request failed or was not waited for`);
                continue;
              }
              ok++;
              R.ob(tag + ":success-resolves", r.k === "ret", `${w}() rejects although the request succeeded`);
              for (const s of sels) for (const g of X.get(r.st.clone(), name, s)) R.ob(`${tag}:invalidated:${Object.keys(s)[0] || "plain"}`, X.gets(g.st) === 4 && g.version === 1004, `after ${w}() the cached prompt is still served`);
            }
          }
          R.ob(tag + ":reached", ok > 0 && bad > 0, "success and failure of the write were not both followed");
        }
        for (const c of X.calls.filter((c) => c.name !== "get")) {
          R.ob(tag + ":write-name", c.args[0] === C(name), "the write is made for another name", c.W);
          if (w === "update") R.ob(tag + ":write-args", c.args[1] === C(3) && prop(c.st, c.args[2], "newLabels") === S("labels"), "version or labels are not passed on", c.W);
          else R.ob(tag + ":write-args", c.args[1] && prop(c.st, c.args[1], "version") === S("v?") && prop(c.st, c.args[1], "label") === S("l?"), "version or label are not passed on", c.W);
        }
      }
    }
    // any order in which the selections were cached, and entries that are expired or being refreshed
    const perms = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]];
    for (const w of ["update", "delete"])
      for (const state of ["fresh", "expired", "refreshing"])
        for (const pm of perms) {
          const tag = `${w}:${state}:${pm.join("")}`;
          const X = mkPrompts(p, R, "text", { mayReject: false });
          const { I } = X;
          X.now = 1e6;
          let sts = [X.st];
          for (const i of pm) sts = sts.flatMap((st) => X.get(st, "p", sels[i]).map((r) => r.st));
          if (state !== "fresh") X.now += 61e3;
          let base = 3;
          if (state === "refreshing") {
            for (const i of pm) sts = sts.flatMap((st) => X.get(st, "p", sels[i]).map((r) => r.st));
            base = 6;
          }
          let n = 0;
          for (const st of sts) {
            const arg = w === "update" ? [L.mkObj(I, st, "upd", { name: C("p"), version: C(3), newLabels: S("labels") })] : [C("p")];
            for (const c of L.invoke(I, st, X.m, w, arg, w)) {
              if (c.k !== "ret") continue;
              for (const r of I.awaitVal(c.st, c.v, null, L.root)) {
                if (r.k !== "ret") continue;
                for (const s of sels) for (const g of X.get(r.st.clone(), "p", s)) {
                  n++;
                  R.ob(tag, X.gets(g.st) === base + 1 && g.version === 1001 + base, `after ${w}() a selection whose entry was ${state} is answered with the old prompt`);
                }
              }
            }
          }
          R.ob(tag + ":reached", n > 0, `${w}() never fulfils`);
        }
    R.entry("get x3 in several orders, entries fresh, expired or being refreshed, update/delete, get");
    // a lookup that completes while the write is under way does not survive the write
    for (const w of ["update", "delete"]) {
      const X = mkPrompts(p, R, "text", { mayReject: false });
      const { I } = X;
      const tag = `${w}:lookup-during-write`;
      let n = 0;
      const arg = (st) => (w === "update" ? [L.mkObj(I, st, "upd", { name: C("p"), version: C(3), newLabels: S("labels") })] : [C("p")]);
      for (const c of L.invoke(I, X.st, X.m, w, arg(X.st), w)) {
        if (c.k !== "ret") continue;
        // the lookup runs to its end before the answer to the write arrives
        for (const g of X.get(c.st, "p", {})) {
          if (g.st.fact("settledw1")) continue;
          for (const r of I.awaitVal(g.st, c.v, null, L.root)) {
            if (r.k !== "ret") continue;
            for (const h of X.get(r.st, "p", {})) {
              n++;
              R.ob(tag, X.gets(h.st) === 2 && h.version === 1002, `a prompt fetched while ${w}() was under way is still served after it has fulfilled`);
            }
          }
        }
      }
      R.ob(tag + ":reached", n > 0, "the history could not be followed");
    }
    R.entry("write started; get; write answered; get");
  },
};
