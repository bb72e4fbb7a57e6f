"use strict";
const { L, V, prop, where } = require("./_common.js");
const { Sched } = require("../engine/sched.js");
const { S, C, UNDEF, single } = V;
module.exports = {
  id: "P17",
  title: "fetching a dataset yields all items of all pages, linkable and runnable",
  rule: "For 0 to 4 pages, with and without a version: every page is requested exactly once with the same dataset, page size and version; the result holds every item of every page in order with its fields unchanged; an item's link call creates a run item for exactly that item and the given span; running an experiment passes all items and the version; a failed page rejects",
  assumptions: ["pages hold no, one, two or sixty items"],
  min: 20,
  run(p, R) {
    const cls = L.findClass(p, "client", "DatasetManager");
    for (const [total, bulk, anyOrder] of [[0], [1], [2], [3], [4], [2, 60], [3, 0], [3, 0, true], [4, 0, true]])
      for (const ver of [true, false])
        for (const size of [true, false]) {
          if (bulk && !(ver && size)) continue;
          if ((anyOrder || bulk === 0) && (ver || size)) continue;
          const tag = `${bulk ? "bulk:" : ""}${anyOrder ? "any-order:" : bulk === 0 ? "empty-page:" : ""}pages=${total}:${ver ? "version" : "no-version"}:${size ? "size" : "default-size"}`;
          let I, done = 0;
          const perPage = (n) => (bulk ? bulk : bulk === 0 && !anyOrder && n === 2 ? 0 : total === 0 ? 0 : n === total ? 1 : 2);
          const hooks = {
            opts: { K: 24, maxElems: 400, maxGen: 300, maxSteps: 3e6 },
            debugEnabled: false,
            onSettle(i) {
              if (i.rec.page && !i.ok) i.st.setFact("pageFailed");
            },
            onCall(info) {
              if (info.name === "spanContext") return L.mkObj(I, info.st, "sc", { traceId: L.symStr("tid"), spanId: L.symStr("sid") });
              if (info.name === "run" && info.callee.k === "sym") {
                info.st.setFact("ran");
                const a = info.args[0];
                const W = where(I, info);
                const d = prop(info.st, a, "data");
                const arr = d && single(d) && info.st.rec(single(d));
                const n = arr && arr.elems ? arr.elems.length : -1;
                let want = 0;
                for (let i = 1; i <= total; i++) want += perPage(i);
                R.ob(tag + ":experiment-items", n === want, `the experiment gets ${n} of ${want} items`, W);
                R.ob(tag + ":experiment-version", prop(info.st, a, "datasetVersion") === (ver ? L.symStr("ver") : UNDEF) || (!ver && prop(info.st, a, "datasetVersion") === undefined), "the experiment does not get the dataset version", W);
                R.ob(tag + ":experiment-params", prop(info.st, a, "name") === S("expName") && prop(info.st, a, "task") === S("expTask"), "the experiment does not get the caller's parameters", W);
                for (const k of ["description", "metadata", "maxConcurrency", "evaluators", "runEvaluators", "runName"]) R.ob(tag + ":experiment-only-given", [undefined, UNDEF].includes(prop(info.st, a, k)), `the experiment gets a ${k} that the caller did not give`, W);
                return S("expResult");
              }
              return null;
            },
            onApi(info, rec) {
              const st = info.st;
              const W = where(I, info);
              if (info.name === "get") {
                R.ob(tag + ":dataset-name", info.args[0] === L.symStr("dsname"), "another dataset is requested", W);
                rec.okVal = L.mkObj(I, st, "dataset", { id: L.symStr("dsid"), name: L.symStr("dsn"), description: S("descr") });
                return [{ k: "ret", v: I.alloc(st, "api:get", rec), st }];
              }
              if (info.name === "list") {
                const a = info.args[0];
                const pg = prop(st, a, "page");
                const n = pg && V.isConst(pg) ? V.constOf(pg) : undefined;
                if (!R.ob(tag + ":page-known", typeof n === "number", "the requested page is not definite", W)) return null;
                R.ob(tag + ":page-once", !st.fact("page" + n), `page ${n} is requested twice`, W);
                R.ob(tag + ":page-range", n >= 1 && n <= Math.max(1, total), `page ${n} of ${total} is requested`, W);
                st.setFact("page" + n);
                R.ob(tag + ":list-dataset", prop(st, a, "datasetName") === L.symStr("dsname"), "items of another dataset are listed", W);
                const lim = prop(st, a, "limit");
                R.ob(tag + ":list-limit", size ? lim === C(7) : lim && V.isConst(lim) && V.constOf(lim) > 0, "the page size is not passed on", W);
                R.ob(tag + ":list-version", ver ? prop(st, a, "version") === L.symStr("ver") : prop(st, a, "version") === undefined || prop(st, a, "version") === UNDEF, "the dataset version is not passed on", W);
                const items = [];
                for (let i = 0; i < perPage(n); i++) items.push(L.mkObj(I, st, `item${n}.${i}`, { id: L.symStr(`id${n}.${i}`), input: S(`input${n}.${i}`), expectedOutput: S(`exp${n}.${i}`), metadata: S(`md${n}.${i}`), mediaReferences: UNDEF }));
                rec.okVal = L.mkObj(I, st, "list" + n, { data: L.mkArr(I, st, "data" + n, items), meta: L.mkObj(I, st, "meta" + n, { totalPages: C(total), page: C(n) }) });
                rec.page = n;
                rec.token = "list" + n;
                return [{ k: "ret", v: I.alloc(st, "api:list" + n, rec), st }];
              }
              if (info.name === "create") {
                const a = info.args[0];
                st.setFact("linked");
                const g = (k) => prop(st, a, k);
                const id = hooks.expectId;
                R.ob(tag + ":link-item", g("datasetItemId") === id, `linking ${L.labelsOf(id)} creates a run item for ${L.labelsOf(g("datasetItemId") || UNDEF)}`, W);
                R.ob(tag + ":link-span", g("traceId") === L.symStr("tid") && g("observationId") === L.symStr("sid"), "the run item is not linked to the given span", W);
                R.ob(tag + ":link-run", g("runName") === S("runName") && g("runDescription") === S("rdesc") && g("metadata") === S("rmd"), "run name, description or metadata are not passed on", W);
              }
              return null;
            },
          };
          I = R.use(L.mkInterp(p, hooks));
          const st = new L.State();
          const client = L.mkObj(I, st, "client", { api: L.symObj("api", { ctorOf: "LangfuseAPIClient" }), experiment: L.symObj("experiment") });
          for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { langfuseClient: client })])) {
            if (c.k !== "ret") continue;
            if (ver) I.addRefine(c.st, single(L.symStr("ver")), { t: true });
            const opt = L.mkObj(I, c.st, "opt", { ...(ver ? { version: L.symStr("ver") } : {}), ...(size ? { fetchItemsPageSize: C(7) } : {}) });
            for (const o of L.invoke(I, c.st, c.v, "get", [L.symStr("dsname"), opt], "get")) {
              if (!R.ob(tag + ":no-sync-throw", o.k === "ret", "get() throws synchronously")) continue;
              const check = (q) => {
                if (q.k !== "ret") return;
                R.ob(tag + ":failed-page-rejects", !q.st.fact("pageFailed"), "get() resolves although a page could not be fetched");
                done++;
                for (let n = 1; n <= total; n++) R.ob(tag + ":all-pages", q.st.fact("page" + n), `page ${n} of ${total} is never fetched`);
                const items = prop(q.st, q.v, "items");
                const arr = items && single(items) && q.st.rec(single(items));
                const els = arr && arr.elems && !arr.elems.some((e) => e.m) ? arr.elems.map((e) => e.v) : null;
                const want = [];
                for (let n = 1; n <= total; n++) for (let i = 0; i < perPage(n); i++) want.push(`${n}.${i}`);
                if (!R.ob(tag + ":items", els && els.length === want.length, `the dataset has ${els ? els.length : "?"} items, expected ${want.length}`)) return;
                R.ob(tag + ":dataset-fields", prop(q.st, q.v, "id") === L.symStr("dsid") && prop(q.st, q.v, "description") === S("descr"), "the dataset's own fields are lost");
                want.forEach((w, i) => {
                  R.ob(tag + ":item-fields", prop(q.st, els[i], "id") === L.symStr("id" + w) && prop(q.st, els[i], "input") === S("input" + w) && prop(q.st, els[i], "expectedOutput") === S("exp" + w) && prop(q.st, els[i], "metadata") === S("md" + w), `item ${w} is missing, moved or changed`);
                  const s2 = q.st.clone();
                  hooks.expectId = L.symStr("id" + w);
                  const args = [L.mkObj(I, s2, "obs", { otelSpan: L.symObj("otelSpan") }), S("runName"), L.mkObj(I, s2, "ra", { description: S("rdesc"), metadata: S("rmd") })];
                  for (const k of L.invoke(I, s2, els[i], "link", args, "link" + i)) {
                    let linked = 0;
                    if (k.k === "ret") for (const x of I.awaitVal(k.st, k.v, null, L.root)) if (x.st.fact("linked")) linked++;
                    R.ob(tag + ":link-works", linked > 0, "link() does not create a run item");
                  }
                });
                const s3 = q.st.clone();
                for (const k of L.invoke(I, s3, q.v, "runExperiment", [L.mkObj(I, s3, "ep", { name: S("expName"), task: S("expTask") })], "runExp")) {
                  R.ob(tag + ":experiment-runs", k.k === "ret" && k.st.fact("ran"), "runExperiment() does not run an experiment");
                  R.ob(tag + ":experiment-result", k.v === S("expResult"), "runExperiment() does not return the experiment's result");
                }
              };
              if (anyOrder) {
                const e = new Sched(I, {}).explore(o.st, { R, root: L.root, watch: [{ v: o.v, check: (st, k, v) => {
                  const sched = I.sched;
                  I.sched = null;
                  check({ k, st: st.clone(), v });
                  I.sched = sched;
                } }] });
                if (e.imprecise) {
                  R.note(`${tag}: ${e.imprecise}`);
                  done++;
                }
                if (process.env.DBG) console.log(tag, e);
              } else for (const q of I.awaitVal(o.st, o.v, null, L.root)) check(q);
            }
          }
          R.entry("datasets get " + tag);
          R.ob(tag + ":reached", done > 0, "get() never resolves");
        }
  },
};
