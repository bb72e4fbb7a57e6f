"use strict";
const { L, V, prop, where } = require("./_common.js");
const { S, C, UNDEF, single } = V;
const DEPTH = 18;
module.exports = {
  id: "P16",
  title: "a dataset item is created only after all its media are stored, with references in their place",
  rule: "For requests with media nested in input, expected output and metadata: the item-creation request is issued at most once, only after an upload of every distinct media (once each, with the item's id, the dataset's id and the media's field) has fulfilled, with every media replaced by its tag, media references by their reference string and all other values unchanged; a failed upload or invalid media rejects and creates nothing; without media nothing is uploaded",
  assumptions: [`media nested up to ${DEPTH} levels deep`, "media upload itself is decided by P09"],
  min: 14,
  run(p, R) {
    const cls = L.findClass(p, "client", "DatasetManager");
    const Media = L.findClass(p, "core", "LangfuseMedia");
    const Ref = L.findClass(p, "core", "LangfuseMediaReference");
    const scenarios = {
      nested: (I, st, M) => ({ input: L.mkObj(I, st, "in", { x: L.mkArr(I, st, "arr", [M("A"), L.symStr("plain0")]), y: L.symStr("plain1") }), expectedOutput: M("B"), metadata: L.mkObj(I, st, "md", { deep: L.mkObj(I, st, "deep", { m: M("C") }), ref: M.ref("R"), z: C(1) }) }),
      same: (I, st, M) => ({ input: M("A"), expectedOutput: L.mkArr(I, st, "arr2", [M("A"), M("A")]), metadata: UNDEF }),
      deep: (I, st, M) => {
        let v = M("A");
        for (let i = 0; i < DEPTH; i++) v = i % 2 ? L.mkArr(I, st, "d" + i, [v]) : L.mkObj(I, st, "d" + i, { k: v });
        return { input: v, expectedOutput: UNDEF, metadata: UNDEF };
      },
      shared: (I, st, M) => {
        const sh = L.mkObj(I, st, "sh", { m: M("A"), t: L.symStr("plain0") });
        const np = L.mkObj(I, st, "np", { m: M("A") });
        st.setRec(single(np), { ...st.rec(single(np)), nullProto: true });
        return { metadata: np, input: L.mkObj(I, st, "in", { p: sh, q: L.mkArr(I, st, "q", [sh]), r: L.mkObj(I, st, "r", { s: sh }) }), expectedOutput: sh };
      },
      long: (I, st, M) => ({ input: L.mkArr(I, st, "long", [...Array(24).fill(C("x")), L.mkObj(I, st, "la", { m: M("A") }), L.mkArr(I, st, "lb", [M("B")])]), expectedOutput: UNDEF, metadata: L.mkObj(I, st, "lm", Object.fromEntries([...Array(24).keys()].map((i) => ["k" + i, i === 23 ? M("C") : C(i)]))) }),
      none: (I, st, M) => ({ input: L.mkObj(I, st, "in", { y: L.symStr("plain1") }), expectedOutput: S("plain2", { ty: { kind: "string", nullable: false } }), metadata: V.NULL }),
    };
    const tagOf = (n) => S("tag:" + n, { label: "tag of " + n, ty: { kind: "string", nullable: false } });
    const check = (st, got, want, path, R2) => {
      if (want === undefined) return;
      if (want.atoms) return R2(got === want, `${path} is sent as ${got ? L.labelsOf(got) : "nothing"}, expected ${L.labelsOf(want)}`);
      const r = got && single(got) && st.rec(single(got));
      if (Array.isArray(want)) {
        if (!R2(r && r.t === "arr" && r.elems && r.elems.length === want.length, `${path} is not the list the caller gave`)) return;
        want.forEach((w, i) => check(st, r.elems[i].v, w, `${path}[${i}]`, R2));
        return;
      }
      if (!R2(r && r.t === "obj" && r.props.size === Object.keys(want).length, `${path} is not the object the caller gave`)) return;
      for (const k of Object.keys(want)) check(st, r.props.get(k), want[k], `${path}.${k}`, R2);
    };
    let deepWant = tagOf("A");
    for (let i = 0; i < DEPTH; i++) deepWant = i % 2 ? [deepWant] : { k: deepWant };
    const wants = {
      nested: { input: { x: [tagOf("A"), L.symStr("plain0")], y: L.symStr("plain1") }, expectedOutput: tagOf("B"), metadata: { deep: { m: tagOf("C") }, ref: L.symStr("refstr:R"), z: C(1) } },
      same: { input: tagOf("A"), expectedOutput: [tagOf("A"), tagOf("A")] },
      deep: { input: deepWant },
      shared: { input: { p: { m: tagOf("A"), t: L.symStr("plain0") }, q: [{ m: tagOf("A"), t: L.symStr("plain0") }], r: { s: { m: tagOf("A"), t: L.symStr("plain0") } } }, expectedOutput: { m: tagOf("A"), t: L.symStr("plain0") }, metadata: { m: tagOf("A") } },
      long: { input: [...Array(24).fill(C("x")), { m: tagOf("A") }, [tagOf("B")]], metadata: Object.fromEntries([...Array(24).keys()].map((i) => ["k" + i, i === 23 ? tagOf("C") : C(i)])) },
      none: { input: { y: L.symStr("plain1") }, expectedOutput: S("plain2", { ty: { kind: "string", nullable: false } }), metadata: V.NULL },
    };
    const mediaNames = { nested: { A: "input", B: "expectedOutput", C: "metadata" }, same: { A: "input" }, deep: { A: "input" }, shared: { A: "input" }, long: { A: "input", B: "input", C: "metadata" }, none: {} };
    for (const sc of Object.keys(scenarios))
      for (const idGiven of [true, false, "undefined"])
        for (const inv of idGiven === "undefined" || ["none", "shared", "long"].includes(sc) ? [true] : [true, "tag", "id", "tag+id"]) {
          const valid = inv === true;
          const tag = `${sc}:${idGiven === "undefined" ? "id-undefined" : idGiven ? "id" : "no-id"}${valid ? "" : ":invalid-" + inv}`;
          let I, created = 0, rejected = 0;
          const names = mediaNames[sc];
          const okUploads = (st) => Object.keys(names).every((n) => st.fact("up:" + n) === "ok");
          const hooks = {
            opts: { K: 24, maxRec: 40, maxDepth: 200, stringifyThrows: false, maxElems: 120, maxGen: 120 },
            debugEnabled: false,
            onSettle(i) {
              if (i.rec.media) i.st.setFact("up:" + i.rec.media, i.ok ? "ok" : "failed");
            },
            stub(node, info) {
              const n = L.fnNameOf(node);
              if (!/packages\/core\/src\/media/i.test(node.getSourceFile().fileName)) return null;
              if (n === "uploadMedia") {
                if (!info) return UNDEF;
                const a = info.args[0];
                const mv = prop(info.st, a, "media");
                const nm = mv && single(mv) && info.st.rec(single(mv)) && info.st.rec(single(mv)).mname;
                const W = where(I, info);
                R.ob(tag + ":upload-known", !!nm, "the uploaded media could not be identified", W);
                R.ob(tag + ":upload-expected", valid && nm in names, "media is uploaded although the request is invalid or has no media", W);
                info.st.count("n:" + nm);
                R.ob(tag + ":upload-once", info.st.fact("n:" + nm) === 1, "the same media is uploaded twice", W);
                R.ob(tag + ":upload-before-create", !info.st.fact("created"), "media is uploaded after the item was created", W);
                R.ob(tag + ":upload-field", prop(info.st, a, "field") === C(names[nm]), `media is uploaded for field ${L.labelsOf(prop(info.st, a, "field") || UNDEF)} instead of ${names[nm]}`, W);
                R.ob(tag + ":upload-dataset", prop(info.st, a, "datasetId") === L.symStr("dsid"), "media is not uploaded for the request's dataset", W);
                info.st.setFact("itemId", (prop(info.st, a, "datasetItemId") || UNDEF).key);
                const rec = I.promRec("ext", { token: "upload:" + nm, mayReject: true, label: "uploadMedia", media: nm });
                rec.origin = info.ast;
                return [{ k: "ret", v: I.alloc(info.st, "upload:" + nm, rec), st: info.st }];
              }
              if (L.clsName(node) === "LangfuseMedia" && info && ["getTag", "getId"].includes(n)) {
                const r = single(info.thisV) && info.st.rec(single(info.thisV));
                const nm = r ? r.mname : "?";
                const v = !valid && nm === "A" && inv.split("+").includes(n === "getTag" ? "tag" : "id") ? V.NULL : n === "getTag" ? tagOf(nm) : C("id:" + nm);
                return [{ k: "ret", v: I.alloc(info.st, `${n}:${nm}:${info.frame.id}:${info.site}`, I.promRec("resolved", { v })), st: info.st }];
              }
              return null;
            },
            onApi(info, rec) {
              const st = info.st;
              const W = where(I, info);
              if (info.name === "get") {
                R.ob(tag + ":dataset-lookup", sc !== "none", "a request is made although there is no media", W);
                R.ob(tag + ":dataset-name", info.args[0] === L.symStr("dsname"), "the dataset of the request is not looked up", W);
                rec.okVal = L.mkObj(I, st, "dataset", { id: L.symStr("dsid") });
                return null;
              }
              if (info.name === "create") {
                created++;
                R.ob(tag + ":create-valid", valid, "an item with invalid media is created", W);
                R.ob(tag + ":create-once", !st.fact("created"), "the item is created twice", W);
                st.setFact("created");
                R.ob(tag + ":create-after-uploads", okUploads(st), "the item is created although the upload of its media has not succeeded", W);
                const b = info.args[0];
                const id = prop(st, b, "id");
                if (idGiven === true) R.ob(tag + ":create-id", id === L.symStr("given"), "the given item id is not used", W);
                else R.ob(tag + ":create-id", id && id.atoms.every((a) => a.k === "sym"), "no item id is generated", W);
                if (sc !== "none") R.ob(tag + ":same-id", id && st.fact("itemId") === id.key, "media is uploaded for another item id than the one created", W);
                R.ob(tag + ":create-dataset", prop(st, b, "datasetName") === L.symStr("dsname"), "the item is created in another dataset", W);
                R.ob(tag + ":create-rest", prop(st, b, "sourceTraceId") === S("srct") && prop(st, b, "status") === S("status"), "other fields of the request are dropped", W);
                for (const f of Object.keys(wants[sc])) check(st, prop(st, b, f), wants[sc][f], f, (ok, d) => R.ob(`${tag}:create-${f}`, ok, d, W));
                rec.created = true;
              }
              return null;
            },
          };
          I = R.use(L.mkInterp(p, hooks));
          const st = new L.State();
          const M = (n) => {
            const v = V.mkVal([V.objAtom("media:" + n)]);
            if (!st.rec(v.atoms[0])) st.setRec(v.atoms[0], { ...L.newObj(Media), mname: n });
            return v;
          };
          M.ref = (n) => {
            const v = L.mkObj(I, st, "ref:" + n, { referenceString: L.symStr("refstr:" + n) }, { cls: Ref });
            return v;
          };
          const client = L.mkObj(I, st, "client", { api: L.symObj("api", { ctorOf: "LangfuseAPIClient" }) }, { open: true, label: "client" });
          const fields = scenarios[sc](I, st, M);
          for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { langfuseClient: client })])) {
            if (c.k !== "ret") continue;
            const req = L.mkObj(I, c.st, "req", { datasetName: L.symStr("dsname"), sourceTraceId: S("srct"), status: S("status"), ...fields, ...(idGiven ? { id: idGiven === true ? L.symStr("given") : UNDEF } : {}) });
            const before = [...c.st.heap].filter(([k, r]) => /^o:(in|arr2?|md|deep|d\d+|sh|q|r|long|lm)$/.test(k));
            const same = (a, b) => b && a.t === b.t && (a.t === "arr" ? b.elems && a.elems.length === b.elems.length && a.elems.every((e, i) => e.v === b.elems[i].v) : a.props.size === b.props.size && [...a.props].every(([k, v]) => b.props.get(k) === v));
            for (const o of L.invoke(I, c.st, c.v, "createItem", [req], "createItem")) {
              if (!R.ob(tag + ":no-sync-throw", o.k === "ret", "createItem() throws synchronously")) continue;
              for (const q of I.awaitVal(o.st, o.v, null, L.root)) {
                if (q.k === "ret") {
                  R.ob(tag + ":resolves-with-item", q.st.fact("created"), "createItem() resolves although the item was not created");
                } else {
                  rejected++;
                  if (Object.keys(names).some((n) => q.st.fact("up:" + n) === "failed")) R.ob(tag + ":failed-upload-creates-nothing", !q.st.fact("created"), "the item is created although an upload failed");
                }
                const rr = q.st.rec(single(req));
                R.ob(tag + ":request-unchanged", Object.keys(fields).every((k) => rr.props.get(k) === fields[k]) && before.every(([k, r]) => same(r, q.st.heap.get(k))), "the caller's request or an object in it is modified");
              }
            }
          }
          R.entry("createItem " + tag);
          R.ob(tag + ":reached", valid ? created > 0 : rejected > 0, valid ? "the item is never created" : "invalid media is not rejected");
          if (valid && sc !== "none") R.ob(tag + ":failure-followed", rejected > 0, "no failure of an upload makes createItem() reject");
        }
  },
};
