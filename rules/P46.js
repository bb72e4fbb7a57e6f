"use strict";
const { L, V, prop, where } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
// alias -> target below the client
const ALIAS = {
  getPrompt: "prompt.get", createPrompt: "prompt.create", updatePrompt: "prompt.update", getDataset: "dataset.get", fetchTrace: "api.trace.get", fetchTraces: "api.trace.list", fetchObservation: "api.legacy.observationsV1.get", fetchObservations: "api.observations.getMany", fetchSessions: "api.sessions.get",
  getDatasetRun: "api.datasets.getRun", getDatasetRuns: "api.datasets.getRuns", createDataset: "api.datasets.create", getDatasetItem: "api.datasetItems.get", createDatasetItem: "dataset.createItem", fetchMedia: "api.media.get", resolveMediaReferences: "media.resolveReferences",
};
const MGR = { prompt: "PromptManager", dataset: "DatasetManager", score: "ScoreManager", media: "MediaManager", experiment: "ExperimentManager" };
module.exports = {
  id: "P46",
  title: "the client's aliases, flush, shutdown and trace URLs do what their targets do",
  rule: "Every deprecated alias of LangfuseClient, also when detached from the client, makes exactly one call of its target with the right receiver and the caller's arguments and returns its result; flush() and shutdown() settle with the score manager's; getTraceUrl() is <baseUrl>/project/<project id>/traces/<trace id>, looks the project up once it succeeded and rejects if the lookup fails without remembering the failure",
  assumptions: [],
  min: 60,
  run(p, R) {
    const cls = L.findClass(p, "client", "LangfuseClient");
    const RES = S("targetResult", { label: "targetResult", ty: { kind: "any", nullable: true } });
    const mk = (X, hooks = {}) => {
      const I = (X.I = R.use(
        L.mkInterp(p, {
          debugEnabled: false,
          opts: { K: 16, stringifyThrows: false },
          ...hooks,
          onCall(info) {
            const id = info.callee.k === "sym" ? info.callee.id || "" : "";
            if (/^api\./.test(id) && id !== "api.projects.get") {
              X.seen.push({ t: id, self: lab(info.thisV), args: info.args, w: where(I, info) });
              return [{ k: "ret", v: RES, st: info.st }];
            }
            return hooks.onCall ? hooks.onCall(info) : null;
          },
          stub(node, info) {
            const c = L.clsName(node), n = L.fnNameOf(node);
            if (!info || !Object.values(MGR).includes(c) || !n || !node.body || !L.ts.isMethodDeclaration(node)) return null;
            const m = Object.keys(MGR).find((k) => MGR[k] === c);
            X.seen.push({ t: `${m}.${n}`, self: prop(info.st, X.client || UNDEF, m) === info.thisV ? m : "another object", args: info.args, w: where(I, info) });
            return hooks.onManager ? hooks.onManager(info, `${m}.${n}`) : [{ k: "ret", v: RES, st: info.st }];
          },
        }),
      ));
      const st = new L.State();
      return L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { publicKey: C("pk"), secretKey: C("sk"), baseUrl: C("https://b.example") })]).filter((o) => o.k === "ret");
    };
    for (const [alias, target] of Object.entries(ALIAS))
      for (const detached of [true, false]) {
        const tag = alias + (detached ? ":detached" : "");
        const X = { seen: [] };
        let n = 0;
        for (const c of mk(X)) {
          X.client = c.v;
          const a = [S("a1", { label: "a1" }), S("a2", { label: "a2" })];
          for (const o of X.I.getProp(c.st, c.v, alias, null, L.root, { i: "get" })) {
            if (!R.ob(tag + ":exposed", o.k === "ret" && o.v !== UNDEF, `the client has no ${alias}`)) continue;
            X.seen = [];
            for (const q of X.I.call(o.st, o.v, detached ? UNDEF : c.v, a, null, L.root, "alias", null)) {
              n++;
              R.ob(tag + ":once", X.seen.length === 1, `${alias} makes ${X.seen.length} calls`);
              for (const s of X.seen) {
                R.ob(tag + ":target", s.t === target, `${alias} calls ${s.t} instead of ${target}`, s.w);
                R.ob(tag + ":receiver", s.self === target.replace(/\.[^.]+$/, ""), `${s.t} is called on ${s.self}`, s.w);
                const max = /createDatasetItem/.test(alias) ? 1 : 2;
                R.ob(tag + ":arguments", a.slice(0, max).every((v, i) => s.args[i] === v), `${s.t} gets ${s.args.map(lab).join(", ")}`, s.w);
              }
              const outs = q.k === "ret" && q.v !== RES ? X.I.awaitVal(q.st, q.v, null, L.root) : [q];
              for (const z of outs) R.ob(tag + ":result", z.k === "ret" && z.v === RES, `${alias} returns ${lab(z.v)}`);
            }
          }
        }
        R.ob(tag + ":reached", n > 0, "never returns");
        R.entry(alias);
      }
    // flush and shutdown
    for (const m of ["flush", "shutdown"])
      for (const fails of [false, true]) {
        const tag = `${m}${fails ? ", failing" : ""}`;
        const X = { seen: [] };
        let n = 0;
        const cs = mk(X, {
          onSettle(i) {
            if (i.rec.scoreOp) i.st.setFact("settled");
          },
          onManager(info, t) {
            const rec = X.I.promRec("ext", { token: "op:" + t, mayReject: fails, label: t });
            rec.scoreOp = true;
            return [{ k: "ret", v: X.I.alloc(info.st, "op:" + t, rec), st: info.st }];
          },
        });
        for (const c of cs) {
          X.client = c.v;
          X.seen = [];
          for (const o of L.invoke(X.I, c.st, c.v, m, [], m)) {
            if (!R.ob(tag + ":no-throw", o.k === "ret", `${m}() throws`)) continue;
            R.ob(tag + ":delegates", X.seen.filter((s) => s.t === "score." + m || (m === "shutdown" && s.t === "score.flush")).length === 1 && X.seen.every((s) => s.self === "score"), `${m}() calls ${X.seen.map((s) => s.t).join(", ") || "nothing"}`);
            for (const q of X.I.awaitVal(o.st, o.v, null, L.root)) {
              n++;
              R.ob(tag + ":waits", q.st.fact("settled"), `${m}() settles before the scores are sent`);
            }
          }
        }
        R.ob(tag + ":reached", n > 0, "never settles");
        R.entry("client." + m);
      }
    // again, and while the first is under way
    for (const m of ["flush", "shutdown"])
      for (const overlapping of [false, true]) {
        const tag = `${m} twice${overlapping ? ", overlapping" : ""}`;
        const X = { seen: [] };
        let n = 0;
        const cs = mk(X, {
          onSettle(i) {
            if (i.rec.scoreOp) i.st.setFact("settled" + i.rec.scoreOp);
          },
          onManager(info, t) {
            const k = (info.st.fact("ops") || 0) + 1;
            info.st.setFact("ops", k);
            const rec = X.I.promRec("ext", { token: `op:${t}:${k}`, mayReject: false, label: t });
            rec.scoreOp = k;
            return [{ k: "ret", v: X.I.alloc(info.st, `op:${t}:${k}`, rec), st: info.st }];
          },
        });
        for (const c of cs) {
          X.client = c.v;
          for (const a of L.invoke(X.I, c.st, c.v, m, [], m + "1"))
            for (const f of overlapping ? [a] : X.I.awaitVal(a.st, a.v, null, L.root)) {
              const before = f.st.fact("ops") || 0;
              for (const b of L.invoke(X.I, f.st, c.v, m, [], m + "2"))
                for (const q of X.I.awaitVal(b.st, b.v, null, L.root)) {
                  n++;
                  const ops = q.st.fact("ops") || 0;
                  if (m === "flush") R.ob(tag + ":delegates", ops > before, `the second ${m}() does not flush the scores`);
                  R.ob(tag + ":waits", q.st.fact("settled" + ops), `the second ${m}() settles before the scores are sent`);
                }
            }
        }
        R.ob(tag + ":reached", n > 0, "never settles");
        R.entry(tag);
      }
    // two clients of two projects
    {
      const X = { seen: [] };
      let n = 0;
      const hooks = {
        onCall(info) {
          if ((info.callee.id || "") !== "api.projects.get") return null;
          const st = info.st, k = (st.fact("lookups") || 0) + 1;
          st.setFact("lookups", k);
          const id = "p" + st.fact("asking");
          const v = L.mkObj(X.I, st, "pr:" + k, { data: L.mkArr(X.I, st, "pra:" + k, [L.mkObj(X.I, st, "pri:" + k, { id: C(id) })]) });
          return [{ k: "ret", v: X.I.alloc(st, "prp:" + k, X.I.promRec("ext", { token: "prp:" + k, mayReject: false, label: "lookup", okVal: v })), st }];
        },
      };
      for (const c of mk(X, hooks))
        for (const d of L.newInstance(X.I, c.st, cls, [L.mkObj(X.I, c.st, "params2", { publicKey: C("pk2"), secretKey: C("sk2"), baseUrl: C("https://c.example") })], "second").filter((o) => o.k === "ret")) {
          const begin = (s, who, id, q) => (s.setFact("asking", who), L.invoke(X.I, s, who === 1 ? c.v : d.v, "getTraceUrl", [C(id)], q));
          const end = (o) => (o.k === "ret" ? X.I.awaitVal(o.st, o.v, null, L.root) : [o]);
          const ok = (what, q, base, id) => R.ob("url:" + what, q.k === "ret" && q.v === C(`https://${base}.example/project/p${base === "b" ? 1 : 2}/traces/${id}`), `${what}: the URL is ${lab(q.v)}`);
          for (const a of begin(d.st.clone(), 1, "t1", "x1").flatMap(end)) {
            ok("first of two clients", a, "b", "t1");
            for (const b of begin(a.st, 2, "t2", "x2").flatMap(end)) {
              ok("second of two clients", b, "c", "t2");
              for (const e of begin(b.st, 1, "t3", "x3").flatMap(end)) n++, ok("first client again", e, "b", "t3");
            }
          }
          for (const a of begin(d.st.clone(), 1, "t1", "y1"))
            for (const b of begin(a.st, 1, "t2", "y2"))
              for (const q of end(b)) {
                ok("second of overlapping calls", q, "b", "t2");
                for (const r of a.k === "ret" ? X.I.awaitVal(q.st, a.v, null, L.root) : [a]) n++, ok("first of overlapping calls", r, "b", "t1");
              }
        }
      R.ob("url:histories-reached", n >= 2, "getTraceUrl never settles");
      R.entry("getTraceUrl of two clients, overlapping");
    }
    // trace URLs
    const url = (script, tag, check) => {
      const X = { seen: [] };
      const hooks = {
        onCall(info) {
          if ((info.callee.id || "") !== "api.projects.get") return null;
          const st = info.st, n = (st.fact("lookups") || 0) + 1;
          st.setFact("lookups", n);
          const ok = script(n);
          const v = ok ? L.mkObj(X.I, st, "projects:" + n, { data: L.mkArr(X.I, st, "pd:" + n, [L.mkObj(X.I, st, "proj:" + n, { id: C(ok) }), L.mkObj(X.I, st, "projb:" + n, { id: C("other") })]) }) : S("lookupErr", { label: "lookupErr", ty: OBJ, isError: true });
          return [{ k: "ret", v: X.I.alloc(st, "pp:" + n, ok ? X.I.resolvedRec(v) : { ...X.I.promRec("rejected"), v }), st }];
        },
      };
      let ends = 0;
      for (const c of mk(X, hooks)) {
        X.client = c.v;
        let sts = [c.st];
        const step = (s, id, q) => L.invoke(X.I, s, c.v, "getTraceUrl", [C(id)], q).flatMap((o) => (o.k === "ret" ? X.I.awaitVal(o.st, o.v, null, L.root) : [o]));
        for (const [i, id] of ["t1", "t2", "t3"].entries())
          sts = sts.flatMap((s) =>
            step(s, id, "u" + i).map((q) => {
              ends++;
              check(i + 1, id, q);
              return q.st;
            }),
          );
      }
      R.ob(tag + ":reached", ends >= 3, "getTraceUrl never settles");
      R.entry("getTraceUrl " + tag);
    };
    const want = (pid, id) => C(`https://b.example/project/${pid}/traces/${id}`);
    url(() => "p1", "url", (i, id, q) => {
      R.ob("url:value", q.k === "ret" && q.v === want("p1", id), `the URL is ${lab(q.v)}`);
      R.ob("url:one-lookup", q.st.fact("lookups") === 1, `the project is looked up ${q.st.fact("lookups")} times`);
    });
    url((n) => (n === 1 ? null : "p1"), "url after failure", (i, id, q) => {
      if (i === 1) R.ob("url-failure:rejects", q.k === "throw" && lab(q.v) === "lookupErr", `a failed lookup yields ${lab(q.v)}`);
      else R.ob("url-failure:recovers", q.k === "ret" && q.v === want("p1", id), `after a failed lookup the URL is ${lab(q.v)}`);
    });
  },
};
