"use strict";
const { L, V, where, prop } = require("./_common.js");
const { S, C, UNDEF, NULL, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const STR = { kind: "string", nullable: false };
// a hash whose base64 form has every character that must be replaced, on both sides of the cut
const HASH = "+a/b+c/d+e/f+g/h+i/j+k/l+m/n+o/p+q/r+s/t+u8=";
const ID = HASH.replace(/\+/g, "-").replace(/\//g, "_").slice(0, 22);
const args_ = (info) => info.args || [];
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
// data URI -> [content type, base64 text] or null
const URIS = {
  image: ["data:image/png;base64,QUJD", ["image/png", "QUJD"]],
  "with parameters": ["data:text/plain;charset=utf-8;base64,QUJD", ["text/plain", "QUJD"]],
  padded: ["data:audio/mpeg;base64,QQ==", ["audio/mpeg", "QQ=="]],
  "not base64": ["data:text/plain,hello", null],
  "no type": ["data:;base64,QUJD", null],
  "no data": ["data:image/png;base64,", null],
  "no comma": ["data:image/png;base64", null],
  "other text": ["https://example.com/a.png", null],
  "invalid base64": ["data:image/png;base64,!!!", null],
  empty: ["", null],
};
const NOW = Date.parse("2026-01-01T00:00:00.000Z");
// [expiry, threshold in seconds, expected]
const EXPIRY = [
  [undefined, undefined, false], ["", undefined, false], ["not a date", undefined, false],
  ["2026-01-01T00:01:01.000Z", undefined, false], ["2026-01-01T00:01:00.000Z", undefined, true], ["2026-01-01T00:00:59.999Z", undefined, true], ["2025-12-31T23:59:59.000Z", undefined, true], ["1970-01-01T00:00:00.000Z", undefined, true],
  ["2026-01-01T00:00:01.000Z", 0, false], ["2026-01-01T00:00:00.000Z", 0, true], ["2025-12-31T23:59:59.000Z", 0, true],
  ["2026-01-01T01:00:00.001Z", 3600, false], ["2026-01-01T00:59:59.000Z", 3600, true],
];
module.exports = {
  id: "P57",
  title: "media objects identify, serialise and download exactly their content",
  rule: "On constant contents: a LangfuseMedia made from bytes or a base64 data URI holds exactly that content and type (none for anything else, without throwing), its id is the first 22 characters of the URL-safe base64 SHA-256 of the content, its tag names type, id and source, and it serialises to its data URI; a resolved reference keeps its data, serialises to the reference string, downloads its own URL, rejects on a failed download, and is expired exactly when its known expiry is within the threshold",
  assumptions: ["bytesToBase64, base64ToBytes, crypto.subtle.digest and fetch are external and do what they say"],
  min: 60,
  run(p, R) {
    const mk = (o = {}) => {
      let I;
      const X = { fetched: [] };
      I = X.I = R.use(
        L.mkInterp(p, {
          debugEnabled: false,
          opts: { K: 32 },
          globals: { crypto: true, fetch: true },
          stub(node, info) {
            if (!info) return null;
            const n = L.fnNameOf(node), f = node.getSourceFile().fileName;
            if (!/packages\/core\/src\//.test(f)) return null;
            if (n === "bytesToBase64" && single(info.args[0]) && single(info.args[0]).digestOf !== undefined) return C(single(info.args[0]).digestOf);
            if (n === "bytesToBase64") return lab(info.args[0]).includes("digest") ? C(HASH) : S(`b64(${info.args[0].key})`, { label: `b64(${lab(info.args[0])})`, ty: STR });
            if (n === "base64ToBytes") {
              if (isConst(info.args[0]) && /[^A-Za-z0-9+/=]/.test(constOf(info.args[0]))) return [{ k: "throw", v: S("err:atob"), st: info.st }];
              return S(`bytes(${info.args[0].key})`, { label: `bytes(${lab(info.args[0])})`, ty: OBJ });
            }
            return null;
          },
          onNew(info) {
            const n = info.callee.name || info.callee.label || "";
            if (/Uint8Array$/.test(n)) return S(`u8(${info.args[0].key})`, { label: `u8(${lab(info.args[0])})`, ty: OBJ, digestOf: single(info.args[0]) ? single(info.args[0]).digestOf : undefined });
            if (/^Date$/.test(n) && (!args_(info).length || isConst(info.args[0]))) {
              const ms = args_(info).length ? new Date(constOf(info.args[0])).getTime() : NOW;
              return S("date:" + ms, { label: "date " + ms, ty: OBJ, dateMs: ms });
            }
            return null;
          },
          onCall(info) {
            const { name, args, st } = info;
            const d = info.thisV && single(info.thisV);
            if (d && d.dateMs !== undefined && /^(getTime|valueOf)$/.test(name)) return C(d.dateMs);
            if (info.callee.k === "bi" && info.callee.name === "Date.now") return C(NOW);
            if (name === "parse" && args[0] && isConst(args[0]) && info.ast && /Date/.test(info.ast.getText())) return C(Date.parse(constOf(args[0])));
            if (name === "digest") {
              X.digest = args;
              if (o.digestFails) return I.mkPromise(st, "digest", "rejected", { v: S("err:digest") });
              if (o.hashes && args[1]) return I.mkPromise(st, "digest" + args[1].key, "resolved", { v: S("digest:" + args[1].key, { label: "digest of " + lab(args[1]), ty: OBJ, digestOf: o.hashes(args[1]) }) });
              return I.mkPromise(st, "digest", "resolved", { v: S("digest", { label: `digest(${lab(args[0])},${lab(args[1])})`, ty: OBJ }) });
            }
            if (info.callee.name === "fetch" || info.callee.label === "fetch" || name === "fetch") {
              X.fetched.push(args);
              const r = L.mkObj(I, st, "resp", { ok: C(o.status === 200), status: C(o.status), arrayBuffer: L.symFn("resp.arrayBuffer") });
              return I.mkPromise(st, "fetch", "resolved", { v: r });
            }
            if (info.callee.id === "resp.arrayBuffer") return I.mkPromise(st, "ab", "resolved", { v: S("body", { label: "body", ty: OBJ }) });
            return null;
          },
        }),
      );
      return X;
    };
    const settle = (I, o) => (o.k === "ret" ? I.awaitVal(o.st, o.v, null, L.root) : [o]);
    const get = (I, st, v, k) => I.getProp(st, v, k, null, L.root, { i: "get" + k });
    // ---- LangfuseMedia
    const media = L.findClass(p, "core", "LangfuseMedia");
    const check = (tag, mkArgs, want, source, o) => {
      let n = 0;
      const X = mk(o), I = X.I;
      const st = new L.State();
      for (const c of L.newInstance(I, st, media, [mkArgs(I, st)])) {
        if (!R.ob(tag + ":construct", c.k === "ret", "the constructor throws")) continue;
        n++;
        const go = (name, f) => {
          const outs = f(c.st.clone());
          R.ob(`${tag}:${name}:reached`, outs.length > 0, `${name} never returns`);
          return outs;
        };
        const uri = want ? `data:${want[0]};base64,{b64(${want[1]})}` : "null";
        for (const q of go("data-uri", (s) => get(I, s, c.v, "base64DataUri"))) R.ob(tag + ":data-uri", q.k === "ret" && lab(q.v) === uri, `the data URI is ${lab(q.v)}, expected ${uri}`);
        for (const q of go("json", (s) => L.invoke(I, s, c.v, "toJSON", [], "json"))) R.ob(tag + ":json", q.k === "ret" && lab(q.v) === uri, `the media serialises to ${lab(q.v)}, expected ${uri}`);
        for (const q of go("length", (s) => get(I, s, c.v, "contentLength"))) R.ob(tag + ":length", q.k === "ret" && (want ? lab(q.v).includes("length") || q.v !== UNDEF : q.v === UNDEF), `the length is ${lab(q.v)}`);
        const id = want && !(o && o.digestFails) ? ID : null;
        for (const q of go("id", (s) => L.invoke(I, s, c.v, "getId", [], "id").flatMap((x) => settle(I, x)))) {
          R.ob(tag + ":id", q.k === "ret" && isConst(q.v) && constOf(q.v) === id, `the id is ${lab(q.v)}, expected ${id}`);
          if (want) R.ob(tag + ":digest", X.digest && lab(X.digest[0]) === '"SHA-256"' && lab(X.digest[1]) === want[1], `the id is the hash of ${X.digest ? X.digest.map(lab).join(", ") : "nothing"}`);
        }
        const t = id ? `@@@langfuseMedia:type=${want[0]}|id=${ID}|source=${source}@@@` : null;
        for (const q of go("tag", (s) => L.invoke(I, s, c.v, "getTag", [], "tag").flatMap((x) => settle(I, x)))) R.ob(tag + ":tag", q.k === "ret" && isConst(q.v) && constOf(q.v) === t, `the tag is ${lab(q.v)}, expected ${t}`);
      }
      R.entry(tag);
      R.ob(tag + ":reached", n > 0, "no media is made");
    };
    const bytes = S("content", { label: "content", ty: OBJ });
    for (const o of [undefined, { digestFails: true }]) {
      const f = o ? ", hashing fails" : "";
      check("media of bytes" + f, (I, st) => L.mkObj(I, st, "par", { source: C("bytes"), contentBytes: bytes, contentType: C("image/gif") }), ["image/gif", "content"], "bytes", o);
      for (const [n, [uri, want]] of Object.entries(URIS)) check(`media of data URI, ${n}${f}`, (I, st) => L.mkObj(I, st, "par", { source: C("base64_data_uri"), base64DataUri: C(uri) }), want && [want[0], `bytes("${want[1]}")`], "base64_data_uri", o);
    }
    // ---- two media of one type and length, one after the other and asked again
    {
      const tag = "two media of equal type and length";
      let n = 0, c1, c2;
      const X = mk({ hashes: (v) => (v === c2 ? "ZZ" + HASH.slice(2) : HASH) }), I = X.I;
      const st = new L.State();
      c1 = L.mkObj(I, st, "content1", { length: C(3), byteLength: C(3) });
      c2 = L.mkObj(I, st, "content2", { length: C(3), byteLength: C(3) });
      const make = (s, c, i) => L.newInstance(I, s, media, [L.mkObj(I, s, "par" + i, { source: C("bytes"), contentBytes: c, contentType: C("image/gif") })], "media" + i);
      const ask = (s, m, i) => L.invoke(I, s, m, "getId", [], "id" + i).flatMap((x) => settle(I, x));
      const ID2 = ("ZZ" + HASH.slice(2)).replace(/\+/g, "-").replace(/\//g, "_").slice(0, 22);
      for (const a of make(st, c1, 1))
        for (const b of a.k === "ret" ? make(a.st, c2, 2) : []) {
          if (b.k !== "ret") continue;
          let sts = [b.st];
          for (const [i, m, want] of [[1, a.v, ID], [2, b.v, ID2], [3, a.v, ID], [4, b.v, ID2]])
            sts = sts.flatMap((s) =>
              ask(s, m, i).flatMap((q) => {
                n++;
                R.ob(`${tag}:${i}`, q.k === "ret" && isConst(q.v) && constOf(q.v) === want, `the id of one content is ${lab(q.v)}, expected ${want}`);
                return q.k === "ret" ? [q.st] : [];
              }),
            );
        }
      R.entry(tag);
      R.ob(tag + ":reached", n >= 4, "the ids are not read");
    }
    // ---- LangfuseMediaReference
    const refc = L.findClass(p, "core", "LangfuseMediaReference");
    const F = { mediaId: "m1", contentType: "image/png", url: "https://signed.example/m1", urlExpiry: "2026-01-01T00:00:00.000Z", contentLength: 12, referenceString: "@@@langfuseMedia:type=image/png|id=m1|source=bytes@@@" };
    const ref = (X, over = {}) => {
      const st = new L.State();
      const d = Object.fromEntries(Object.entries({ ...F, ...over }).map(([k, v]) => [k, C(v)]));
      return L.newInstance(X.I, st, refc, [L.mkObj(X.I, st, "par", d)]);
    };
    const withRef = (tag, o, over, f) => {
      let n = 0;
      const X = mk(o);
      for (const c of ref(X, over)) if (R.ob(tag + ":construct", c.k === "ret", "the constructor throws")) n++, f(X, c);
      R.entry(tag);
      R.ob(tag + ":reached", n > 0, "no reference is made");
    };
    withRef("reference data", {}, {}, (X, c) => {
      for (const [k, v] of Object.entries(F)) for (const q of get(X.I, c.st.clone(), c.v, k)) R.ob("reference:" + k, q.k === "ret" && isConst(q.v) && constOf(q.v) === v, `${k} of the reference is ${lab(q.v)}`);
      for (const q of L.invoke(X.I, c.st.clone(), c.v, "toJSON", [], "json")) R.ob("reference:json", q.k === "ret" && isConst(q.v) && constOf(q.v) === F.referenceString, `the reference serialises to ${lab(q.v)}`);
    });
    for (const [exp, thr, want] of EXPIRY) {
      const tag = `expiry ${exp}, threshold ${thr}`;
      withRef(tag, {}, { urlExpiry: exp }, (X, c) => {
        const outs = L.invoke(X.I, c.st, c.v, "isUrlExpired", thr === undefined ? [] : [C(thr)], "exp");
        R.ob(tag + ":answers", outs.length > 0, "isUrlExpired never returns");
        for (const q of outs) R.ob(tag, q.k === "ret" && isConst(q.v) && constOf(q.v) === want, `the URL is ${lab(q.v) === "true" ? "" : "not "}expired (${lab(q.v)}), expected ${want}`);
      });
    }
    for (const status of [200, 403, 404, 500])
      for (const [m, want] of [["fetchBytes", "u8(body)"], ["fetchBase64", "b64(u8(body))"], ["fetchDataUri", "data:image/png;base64,{b64(u8(body))}"]]) {
        const tag = `${m}, HTTP ${status}`;
        withRef(tag, { status }, {}, (X, c) => {
          const outs = L.invoke(X.I, c.st, c.v, m, [], "dl").flatMap((x) => settle(X.I, x));
          R.ob(tag + ":settles", outs.length > 0, "the download never settles");
          R.ob(tag + ":url", X.fetched.length === 1 && lab(X.fetched[0][0]) === JSON.stringify(F.url), `the download fetches ${X.fetched.map((a) => lab(a[0])).join(", ") || "nothing"}`);
          for (const q of outs) R.ob(tag, status === 200 ? q.k === "ret" && lab(q.v) === want : q.k === "throw", `the download ${q.k === "ret" ? "yields" : "rejects with"} ${lab(q.v)}, expected ${status === 200 ? want : "a rejection"}`);
        });
      }
  },
};
