"use strict";
const { L, V, prop, where, konst, readConst, canon } = require("./_common.js");
const { S, C, UNDEF, single, taintOf } = V;
module.exports = {
  id: "P18",
  title: "resolving media references replaces what could be fetched and nothing else",
  rule: "For the listed values (texts with no, one, several, repeated and malformed references; nested objects and lists up to and beyond the depth limit; shared objects; long lists) and every outcome of metadata lookup, download, HTTP status and body of each media: the result is a deep copy in which a reference is replaced by the data URI of its own media exactly when its bytes were downloaded with status 200; everything else, including unresolved references, is unchanged; the call never rejects and never modifies the caller's object; the download goes to the URL the server returned and is made without credentials",
  assumptions: ["the values are those listed in the rule; every text in them is known, the outcomes of requests are arbitrary", "requests for the same media have the same outcome"],
  min: 60,
  run(p, R) {
    const cls = L.findClass(p, "client", "MediaManager");
    const ref = (i, o = {}) => `@@@langfuseMedia:type=image/png|id=m${i}|source=${o.source || "bytes"}@@@`;
    const nest = (n, v) => (n === 0 ? v : n % 2 ? { k: nest(n - 1, v) } : [nest(n - 1, v)]);
    const scenarios = {
      one: { v: ref(0) },
      "in-text": { v: `see ${ref(0)}, and ${ref(1)}.` },
      repeated: { v: `${ref(0)}${ref(0)} twice, then ${ref(1)} and ${ref(0)}` },
      "two-sources": { v: `${ref(0)} ${ref(0, { source: "file" })}` },
      "field-order": { v: "@@@langfuseMedia:id=m0|source=bytes|type=image/png@@@" },
      malformed: { v: [`@@@langfuseMedia:broken@@@ ${ref(0)}`, "@@@langfuseMedia:type=image/png|id=m1@@@", "@@@langfuseMedia:type=image/png|id=m1|source=bytes", "@@@other:type=image/png|id=m1|source=bytes@@@", "@@@langfuseMedia:@@@"] },
      object: { v: { a: ref(0), n: 7, z: null, t: true, e: "", d: { k: "plain" }, b: `x ${ref(1)}` } },
      list: { v: [0, ref(0), { q: true, r: [ref(1)] }, [], {}, "plain @@@ text"] },
      "long-list": { v: [...Array(15).fill("x"), ref(0), { a: [...Array(12).fill(1), ref(1)] }] },
      "at-limit": { v: nest(10, ref(0)) },
      "beyond-limit": { v: nest(11, ref(0)), kept: true },
      "own-limit": { v: nest(2, ref(0)), maxDepth: 2 },
      "beyond-own-limit": { v: nest(3, ref(0)), maxDepth: 2, kept: true },
      none: { v: { a: "nothing here", b: [1, null, false] } },
      number: { v: 42 },
      null: { v: null },
    };
    const outcomes = ["200", "404", "206", "500", "no-lookup", "no-fetch", "no-body"];
    const run = (tag, sc, mkValue) => {
      let I;
      let resolved = 0, kept = 0;
      const idOf = (v) => {
        const m = v && V.isConst(v) && /m([01])$/.exec(String(V.constOf(v)));
        return m ? "m" + m[1] : null;
      };
      const reject = (st, k) => I.mkPromise(st, k, "rejected", { v: S("rej:" + k, { label: "rejection of " + k, ty: { kind: "any", nullable: true } }) });
      const hooks = {
        opts: { K: 80, maxSteps: 1.5e6, maxRec: 16, maxDepth: 120, maxElems: 120, maxGen: 60, stringifyThrows: false },
        debugEnabled: false,
        stub(node, info) {
          if (L.fnNameOf(node) !== "bytesToBase64" || !info) return null;
          const t = taintOf(info.args[0]).filter((x) => /^bytes:/.test(x));
          return t.length === 1 ? C(`<base64 of ${t[0].slice(6)}>`) : S("b64", { label: "base64", ty: { kind: "string", nullable: false } });
        },
        onNew(info) {
          if (info.callee.k === "bi" && /^(Uint8Array|Blob)$/.test(info.callee.name)) return S(`u8(${info.args[0].key})`, { label: "bytes", ty: { kind: "object", nullable: false }, taint: taintOf(info.args[0]) });
          return null;
        },
        onCall(info) {
          const st = info.st;
          if (info.callee.k === "bi" && info.callee.name === "fetch") {
            const W = where(I, info);
            const id = idOf(info.args[0]);
            if (!R.ob(tag + ":url", id && V.constOf(info.args[0]) === "https://blob.example/" + id, `the download does not go to the URL of the looked-up media (${L.labelsOf(info.args[0])})`, W)) return null;
            const init = info.args[1] && single(info.args[1]) && st.rec(single(info.args[1]));
            const h = init && init.props.get("headers");
            const hr = h && single(h) && st.rec(single(h));
            R.ob(tag + ":no-credentials", !hr || (hr.props.size === 0 && !hr.spreads.length), "the download carries extra headers", W);
            const out = st.fact("out:" + id);
            const key = `fetch:${id}:${info.frame.id}:${info.site}`;
            if (out === "no-fetch") return [{ k: "ret", v: reject(st, key), st }];
            const code = /^\d+$/.test(out) ? +out : 200;
            const resp = L.mkObj(I, st, "resp:" + id, { status: C(code), ok: C(code >= 200 && code < 300), statusText: C("") }, { open: true, label: "resp", bodyOf: id });
            return [{ k: "ret", v: I.mkPromise(st, key, "resolved", { v: resp }), st }];
          }
          if (info.name === "arrayBuffer" || info.name === "blob" || info.name === "bytes") {
            const rr = single(info.thisV) && st.rec(single(info.thisV));
            const id = rr && rr.bodyOf;
            if (!id) return null;
            const key = `body:${id}:${info.frame.id}:${info.site}`;
            return [{ k: "ret", v: st.fact("out:" + id) === "no-body" ? reject(st, key) : I.mkPromise(st, key, "resolved", { v: S("bytes:" + id, { label: "bytes of " + id, ty: { kind: "object", nullable: false }, taint: ["bytes:" + id] }) }), st }];
          }
          return null;
        },
        onApi(info, rec) {
          const id = idOf(info.args[0]);
          if (!R.ob(tag + ":lookup", id, "the metadata of another media is looked up", where(I, info))) return null;
          const res = [];
          for (const o of info.st.fact("out:" + id) ? [info.st.fact("out:" + id)] : outcomes) {
            const st = info.st.clone();
            st.setFact("out:" + id, o);
            const key = `get:${id}:${info.frame.id}:${info.site}`;
            const meta = L.mkObj(I, st, "meta:" + id, { mediaId: C(id), url: C("https://blob.example/" + id), contentType: C("type/of-" + id) });
            res.push({ k: "ret", v: o === "no-lookup" ? reject(st, key) : I.mkPromise(st, key, "resolved", { v: meta }), st });
          }
          return res;
        },
      };
      I = R.use(L.mkInterp(p, hooks));
      const st = new L.State();
      const { value, want } = mkValue ? mkValue(I, st) : { value: konst(I, st, "val", sc.v), want: sc.v };
      const mine = [...st.heap].filter(([k]) => /^o:val/.test(k));
      const same = (a, b) => b && a.t === b.t && (a.t === "arr" ? b.elems && a.elems.length === b.elems.length && a.elems.every((e, i) => e.v === b.elems[i].v) : a.props.size === b.props.size && [...a.props].every(([k, v]) => b.props.get(k) === v));
      for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { apiClient: L.symObj("api", { ctorOf: "LangfuseAPIClient" }) })])) {
        if (c.k !== "ret") continue;
        const prm = L.mkObj(I, c.st, "prm", { obj: value, resolveWith: C("base64DataUri"), ...(sc.maxDepth !== undefined ? { maxDepth: C(sc.maxDepth) } : {}) });
        for (const o of L.invoke(I, c.st, c.v, "resolveReferences", [prm], "res")) {
          if (!R.ob(tag + ":no-throw", o.k === "ret", "resolveReferences() throws synchronously")) continue;
          for (const q of I.awaitVal(o.st, o.v, null, L.root)) {
            if (!R.ob(tag + ":never-rejects", q.k === "ret", `resolveReferences() rejects (${L.labelsOf(q.v)})`)) continue;
            const outs = [0, 1].map((i) => q.st.fact("out:m" + i));
            const subst = (x) => {
              if (typeof x === "string" && !sc.kept) return x.replace(/@@@langfuseMedia:.+?@@@/g, (m) => {
                const id = /id=(m[01])/.exec(m);
                return id && /type=/.test(m) && /source=/.test(m) && q.st.fact("out:" + id[1]) === "200" ? `data:type/of-${id[1]};base64,<base64 of ${id[1]}>` : m;
              });
              if (Array.isArray(x)) return x.map(subst);
              return x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, y]) => [k, subst(y)])) : x;
            };
            const got = readConst(q.st, q.v), exp = subst(want);
            const say = outs.map((x, i) => (x ? `m${i}: ${x}` : "")).filter(Boolean).join(", ") || "no request";
            if (canon(exp) !== canon(want)) resolved++;
            else kept++;
            R.ob(`${tag}:${canon(exp) === canon(want) ? "kept" : "replaced"}`, canon(got) === canon(exp), `with ${say} the value becomes ${canon(got)} instead of ${canon(exp)}`.slice(0, 300));
            if (typeof want === "string" || !sc.kept) for (const i of [0, 1]) if (JSON.stringify(want).includes("id=m" + i + "|source=bytes@@@")) R.ob(tag + ":requested", sc.kept || outs[i] || tag === "malformed", "a reference is not looked up");
            R.ob(tag + ":input-unchanged", mine.every(([k, r]) => same(r, q.st.heap.get(k))), "the caller's object is modified");
            if (want && typeof want === "object" && !sc.kept) R.ob(tag + ":copy", q.v !== value || canon(exp) === canon(want), "the caller's object is returned instead of a copy");
          }
        }
      }
      R.entry("resolveReferences: " + tag);
      R.ob(tag + ":reached", kept > 0, "the call never fulfils");
      if (/id=m0/.test(JSON.stringify(want)) && !sc.kept) R.ob(tag + ":reached:replaced", resolved > 0, "no outcome resolves a reference");
    };
    for (const [tag, sc] of Object.entries(scenarios)) run(tag, sc);
    // the same object at several places
    run("shared", {}, (I, st) => {
      const sh = konst(I, st, "val.sh", { t: ref(0) });
      const l = L.mkArr(I, st, "val.l", [sh, sh]);
      return { value: L.mkObj(I, st, "val", { p: sh, q: l, r: sh, s: l }), want: { p: { t: ref(0) }, q: [{ t: ref(0) }, { t: ref(0) }], r: { t: ref(0) }, s: [{ t: ref(0) }, { t: ref(0) }] } };
    });
  },
};
