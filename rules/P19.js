"use strict";
const { L, V, prop, where } = require("./_common.js");
const { S, C, UNDEF, NULL, single } = V;
module.exports = {
  id: "P19",
  title: "media references of fetched dataset items are hydrated where they point to and nowhere else",
  rule: "For items with references of every kind (nested key, list index, whole value, unknown field, missing media, malformed or dangling path): exactly the value at the reference's own field and path becomes a LangfuseMediaReference carrying that reference's own media data; every other value is unchanged; a bad reference never makes get() reject or affects another reference",
  assumptions: ["at most twenty references per item"],
  min: 15,
  run(p, R) {
    const cls = L.findClass(p, "client", "DatasetManager");
    let I, done = 0;
    const media = (I, st, n) => L.mkObj(I, st, "media" + n, { mediaId: L.symStr("mid" + n), contentType: L.symStr("ct" + n), url: L.symStr("url" + n), urlExpiry: L.symStr("exp" + n), contentLength: S("len" + n, { ty: { kind: "number", nullable: false } }) });
    const ref = (I, st, n, field, path, m) => L.mkObj(I, st, "ref" + n, { field: C(field), jsonPath: C(path), referenceString: L.symStr("rs" + n), media: m === undefined ? media(I, st, n) : m });
    const orig = (n) => S("orig" + n, { ty: { kind: "string", nullable: false } });
    // variants: where a bad reference stands relative to the good ones
    const bad = {
      none: () => [],
      "unknown-field": (I, st) => [ref(I, st, 90, "attachments", "$['a']"), ref(I, st, 89, "attachments", "$")],
      "no-media": (I, st) => [ref(I, st, 91, "input", "$['keep']", NULL)],
      malformed: (I, st) => [ref(I, st, 92, "input", "keep"), ref(I, st, 93, "input", "$.keep"), ref(I, st, 94, "input", "$['keep'"), ref(I, st, 95, "input", "$[]"), ref(I, st, 88, "input", "$['list'][]"), ref(I, st, 87, "input", "$['list'][1"), ref(I, st, 86, "input", "$['list'][1]x"), ref(I, st, 85, "input", "['keep']"), ref(I, st, 84, "input", "$['list'][-1]"), ref(I, st, 83, "input", "$['list'][0.5]")],
      dangling: (I, st) => [ref(I, st, 96, "input", "$['nope']['deep']['x']"), ref(I, st, 97, "expectedOutput", "$[0]['x']")],
      "digit-key": (I, st) => [ref(I, st, 98, "input", "$['obj'][7]")],
    };
    for (const [bk, mkBad] of Object.entries(bad))
      for (const first of bk === "none" ? [true] : [true, false]) {
        const tag = `${bk}${first ? ":first" : ":last"}`;
        const hooks = {
          opts: { K: 24, maxSteps: 1e6, maxElems: 60, maxGen: 40 },
          debugEnabled: false,
          onApi(info, rec) {
            const st = info.st;
            if (info.name === "get") {
              rec.okVal = L.mkObj(I, st, "dataset", { id: L.symStr("dsid") });
              rec.mayReject = false;
            } else if (info.name === "list") {
              rec.mayReject = false;
              const obj = L.mkObj(I, st, "in.obj", { 7: orig(7), b: orig(1) });
              const list = L.mkArr(I, st, "in.list", [orig(2), orig(3), L.mkObj(I, st, "in.list.2", { q: orig(4) })]);
              const input = L.mkObj(I, st, "in", { keep: orig(5), obj, list, "a.b": orig(6), "obj]": orig(33), long: L.mkArr(I, st, "in.long", [...Array(20).keys()].map((i) => (i === 19 ? L.mkArr(I, st, "in.long.19", [L.mkObj(I, st, "in.long.19.0", { "it's": orig(32) })]) : orig(100 + i)))) });
              const good = [ref(I, st, 1, "input", "$['obj']['b']"), ref(I, st, 3, "input", "$['list'][1]"), ref(I, st, 4, "input", "$['list'][2]['q']"), ref(I, st, 6, "input", "$['a.b']"), ref(I, st, 8, "expectedOutput", "$"), ref(I, st, 9, "metadata", "$['m']"), ref(I, st, 30, "input", "$['long'][9]"), ref(I, st, 31, "input", "$['long'][10]"), ref(I, st, 32, "input", "$['long'][19][0]['it\'s']"), ref(I, st, 33, "input", "$['obj]']")];
              const b = mkBad(I, st);
              const item = L.mkObj(I, st, "item", { id: L.symStr("iid"), input, expectedOutput: orig(8), metadata: L.mkObj(I, st, "md", { m: orig(9), n: orig(10) }), mediaReferences: L.mkArr(I, st, "refs", first ? b.concat(good) : good.concat(b)) });
              const root = L.mkObj(I, st, "rootItem", { id: L.symStr("rid"), input: L.mkArr(I, st, "ri", [orig(40), orig(41), L.mkArr(I, st, "ri.2", [orig(42)])]), expectedOutput: NULL, metadata: UNDEF, mediaReferences: L.mkArr(I, st, "refs2", [ref(I, st, 41, "input", "$[1]"), ref(I, st, 42, "input", "$[2][0]")]) });
              const plain = L.mkObj(I, st, "plain", { id: L.symStr("pid"), input: orig(20), expectedOutput: NULL, metadata: UNDEF });
              rec.okVal = L.mkObj(I, st, "list", { data: L.mkArr(I, st, "data", [item, plain, root]), meta: L.mkObj(I, st, "meta", { totalPages: C(1), page: C(1) }) });
            }
            return [{ k: "ret", v: I.alloc(st, "api:" + info.name, rec), st }];
          },
        };
        I = R.use(L.mkInterp(p, hooks));
        const st = new L.State();
        const client = L.mkObj(I, st, "client", { api: L.symObj("api", { ctorOf: "LangfuseAPIClient" }), experiment: L.symObj("experiment") });
        for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { langfuseClient: client })])) {
          if (c.k !== "ret") continue;
          for (const o of L.invoke(I, c.st, c.v, "get", [L.symStr("dsname")], "get"))
            for (const q of o.k === "ret" ? I.awaitVal(o.st, o.v, null, L.root) : [o]) {
              if (!R.ob(tag + ":never-rejects", q.k === "ret", `a media reference makes get() reject (${L.labelsOf(q.v)})`)) continue;
              done++;
              const g = (v, ...ks) => {
                for (const k of ks) {
                  const r = v && single(v) && q.st.rec(single(v));
                  if (!r) return undefined;
                  v = typeof k === "number" && r.t === "arr" ? r.elems && r.elems[k] && r.elems[k].v : r.props && r.props.get(String(k));
                }
                return v;
              };
              const item = g(q.v, "items", 0);
              const hyd = (n, v, where) => {
                const r = v && single(v) && q.st.rec(single(v));
                R.ob(tag + ":hydrated", r && r.cls && r.cls.name && r.cls.name.text === "LangfuseMediaReference", `the reference at ${where} is not hydrated`);
                if (!r || !r.cls) return;
                const own = { mediaId: "mid", contentType: "ct", url: "url", urlExpiry: "exp", referenceString: "rs" };
                for (const [k, pre] of Object.entries(own)) R.ob(tag + ":own-data", r.props.get(k) === L.symStr(pre + n), `the hydrated reference at ${where} has ${k} = ${L.labelsOf(r.props.get(k) || UNDEF)}`);
                R.ob(tag + ":own-data", r.props.get("contentLength") === S("len" + n, { ty: { kind: "number", nullable: false } }), `the hydrated reference at ${where} has another contentLength`);
              };
              hyd(1, g(item, "input", "obj", "b"), "input.obj.b");
              hyd(3, g(item, "input", "list", 1), "input.list[1]");
              hyd(4, g(item, "input", "list", 2, "q"), "input.list[2].q");
              hyd(6, g(item, "input", "a.b"), "input['a.b']");
              hyd(8, g(item, "expectedOutput"), "expectedOutput");
              hyd(9, g(item, "metadata", "m"), "metadata.m");
              hyd(30, g(item, "input", "long", 9), "input.long[9]");
              hyd(31, g(item, "input", "long", 10), "input.long[10]");
              hyd(32, g(item, "input", "long", 19, 0, "it's"), "input.long[19][0]['it's']");
              hyd(33, g(item, "input", "obj]"), "input['obj]']");
              hyd(41, g(q.v, "items", 2, "input", 1), "input[1]");
              hyd(42, g(q.v, "items", 2, "input", 2, 0), "input[2][0]");
              const same = (n, v, where) => R.ob(tag + ":unchanged", v === orig(n), `${where} is changed to ${L.labelsOf(v || UNDEF)}`);
              same(5, g(item, "input", "keep"), "input.keep");
              same(7, g(item, "input", "obj", "7"), "input.obj.7");
              same(2, g(item, "input", "list", 0), "input.list[0]");
              same(40, g(q.v, "items", 2, "input", 0), "input[0]");
              for (let i = 0; i < 19; i++) if (i !== 9 && i !== 10) same(100 + i, g(item, "input", "long", i), `input.long[${i}]`);
              same(10, g(item, "metadata", "n"), "metadata.n");
              const sz = (v, n) => {
                const r = v && single(v) && q.st.rec(single(v));
                return r && (r.t === "arr" ? r.elems && r.elems.length === n && !(r.props && r.props.size) : r.props.size === n && !(r.abs && r.abs.length));
              };
              R.ob(tag + ":no-additions", sz(g(item, "input"), 6) && sz(g(item, "input", "long"), 20) && sz(g(q.v, "items", 2, "input"), 3) && sz(g(item, "input", "obj"), 2) && sz(g(item, "input", "list"), 3) && sz(g(item, "metadata"), 2), "hydration adds or removes a key of the item");
              const ir = item && single(item) && q.st.rec(single(item));
              for (const [k, w] of (ir && ir.props) || []) {
                const x = single(w) && q.st.rec(single(w));
                R.ob(tag + ":known-fields", k === "expectedOutput" || !(x && x.cls && x.cls.name && x.cls.name.text === "LangfuseMediaReference"), `a reference is written to the item's field ${k}`);
              }
              const pl = g(q.v, "items", 1);
              R.ob(tag + ":plain-item", g(pl, "input") === orig(20) && g(pl, "expectedOutput") === NULL, "an item without references is changed");
            }
        }
        R.entry("datasets get with media references " + tag);
      }
    R.ob("reached", done > 0, "get() never resolves");
  },
};
