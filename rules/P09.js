"use strict";
const { L, V, where, prop, mediaNew, stubUpload } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
const STATUSES = [200, 201, 204, 301, 403, 500, 503];
module.exports = {
  id: "P09",
  title: "a media upload reports success only when the bytes are stored",
  rule: "On every path of the upload: nothing is sent for incomplete media, without an upload URL or on an id mismatch; the PUT carries exactly the media's bytes, type and checksum to the URL the server gave; every non-200/201 answer or network error is retried until 1+maxRetries attempts were made; the final status is reported to the API before the outcome, and the promise fulfils only after a 200/201 (or when the server already has the media)",
  assumptions: ["response statuses are drawn from " + STATUSES.join("/") + " and network failure, independently per attempt, default maxRetries"],
  min: 14,
  run(p, R) {
    const fn = L.findFunction(p, "core", "uploadMedia");
    const loc = { loc: p.loc(fn) };
    const go = (name, cfg) => {
      let I;
      const bytes = cfg.bytes === undefined ? S("bytes", { label: "bytes", ty: { kind: "object", nullable: false } }) : cfg.bytes;
      const hash = cfg.hash === undefined ? L.symStr("hash") : cfg.hash;
      const vals = { contentType: L.symStr("ctype"), len: S("len", { ty: { kind: "number", nullable: false } }) };
      if (cfg.ctype) vals.contentType = cfg.ctype;
      const nonEmpty = cfg.nonEmpty !== false;
      const hooks = {
        stub(node, info) {
          const n = L.fnNameOf(node);
          if (L.clsName(node) === "LangfuseMedia" && info) {
            const ok = { getSha256Hash: hash, getId: C("id-local"), getTag: L.symStr("tag") }[n];
            if (ok) return [{ k: "ret", v: info.interp.alloc(info.st, `m.${n}:${info.site}`, info.interp.promRec("resolved", { v: ok })), st: info.st }];
          }
          return null;
        },
        onApi(info, rec) {
          if (info.name === "getUploadUrl") {
            info.st.count("urlCalls");
            const a = info.st.rec(single(info.args[0]));
            for (const [k, v] of Object.entries({ sha256Hash: hash, contentType: vals.contentType, traceId: L.symStr("tid"), observationId: L.symStr("oid"), datasetId: L.symStr("did"), datasetItemId: L.symStr("diid"), field: L.symStr("field") })) R.ob("request:" + k, a && a.props.get(k) === v, `the upload request's ${k} is ${a && a.props.get(k) ? L.labelsOf(a.props.get(k)) : "missing"}`, where(I, info));
            const cl = a && a.props.get("contentLength");
            R.ob("request:contentLength", cl && (cl === vals.len || /bytes/.test(cl.key)), "the upload request's contentLength is not the media's", where(I, info));
            rec.okVal = L.mkObj(I, info.st, "urlResp", { uploadUrl: cfg.url === undefined ? C("https://s3.example.com/x") : cfg.url, mediaId: C(cfg.mediaId || "id-local") });
          }
          if (info.name === "patch") {
            info.st.count("patched");
            const a = info.args[1] && info.st.rec(single(info.args[1]));
            const stt = a && a.props.get("uploadHttpStatus");
            R.ob("report:id", isConst(info.args[0]) && constOf(info.args[0]) === "id-local", "upload status is reported for another media id", where(I, info));
            R.ob("report:status", stt && isConst(stt) && String(constOf(stt)) === info.st.fact("last"), `the reported upload status is ${stt ? L.labelsOf(stt) : "missing"} while the last response was ${info.st.fact("last")}`, where(I, info));
            const he = a && a.props.get("uploadHttpError");
            if (!/^20[01]$/.test(info.st.fact("last") || "")) R.ob("report:error-text", he && he !== UNDEF && he.key === L.symStr("body").key, `the reported upload error is ${he ? L.labelsOf(he) : "missing"}, not the storage's answer`, where(I, info));
            R.ob("report:uploadedAt", !!(a && a.props.get("uploadedAt")), "upload time is not reported", where(I, info));
          }
        },
        onSettle(i) {
          if (/^api /.test(i.rec.label || "") && !i.ok) i.st.setFact("apiFail");
          if (i.rec.isFetch && !i.ok) i.st.setFact("last", "neterr");
          if (i.rec.isText && !i.ok) i.st.setFact("apiFail");
        },
        onCall(info) {
          if (info.callee.k === "bi" && info.callee.name === "fetch") {
            info.st.count("puts", 9);
            info.st.delFact("last");
            const o = info.args[1] && info.st.rec(single(info.args[1]));
            const W = where(I, info);
            R.ob("put:allowed", cfg.mayPut, `bytes are sent although ${name}`, W);
            R.ob("put:url", isConst(info.args[0]) && constOf(info.args[0]) === (cfg.url ? constOf(cfg.url) : "https://s3.example.com/x"), "bytes are not sent to the URL the server gave", W);
            R.ob("put:method", o && o.props.get("method") && o.props.get("method") === C("PUT"), "upload method is not PUT", W);
            R.ob("put:body", o && o.props.get("body") === bytes, "the uploaded body is not the media's bytes", W);
            const hv = o && o.props.get("headers");
            for (const a of hv ? hv.atoms : [null]) {
              const h = info.st.rec(a);
              const get = (k) => { for (const [n, v] of h ? h.props : []) if (String(n).toLowerCase() === k && v !== UNDEF) return v; return null; };
              R.ob("put:content-type", h && get("content-type") === vals.contentType, "the upload's Content-Type is not the media's", W);
              if (cfg.gcs) R.ob("put:gcs-headers", h && !get("x-amz-checksum-sha256") && !get("x-ms-blob-type"), "a Google Cloud Storage upload carries headers its signed URL does not allow", W);
              else {
                R.ob("put:checksum", h && get("x-amz-checksum-sha256") === hash, "the upload does not carry the content checksum", W);
                R.ob("put:blob-type", h && get("x-ms-blob-type") === C("BlockBlob"), "the upload lacks the blob type Azure storage requires", W);
              }
            }
            const outs = [];
            for (const sc of cfg.statuses || STATUSES) {
              const st = info.st.clone();
              const resp = L.mkObj(I, st, `resp${sc}`, { status: C(sc), text: S("text:fn", { label: "text", ty: { kind: "function", nullable: false }, respText: true }), ok: C(sc >= 200 && sc < 300) });
              st.setFact("last", String(sc));
              const rec = I.promRec("resolved", { v: resp });
              outs.push({ k: "ret", v: I.alloc(st, `f:${info.site}`, rec), st });
            }
            const st = info.st.clone();
            st.setFact("last", "neterr");
            outs.push({ k: "ret", v: I.alloc(st, `f:${info.site}`, I.promRec("rejected", { v: S("neterr") })), st });
            return outs;
          }
          if (info.callee.k === "sym" && info.callee.respText) return [{ k: "ret", v: I.alloc(info.st, "txt", I.promRec("resolved", { v: L.symStr("body") })), st: info.st }];
          return null;
        },
        onNew(info) {
          if (info.callee.k === "bi" && info.callee.name === "URL") {
            const u = new URL(cfg.url && isConst(cfg.url) && constOf(cfg.url) ? constOf(cfg.url) : "https://s3.example.com/x");
            return L.mkObj(I, info.st, "url", { hostname: C(u.hostname), host: C(u.host), href: C(u.href), protocol: C(u.protocol), pathname: C(u.pathname), origin: C(u.origin), search: C(u.search) }, { open: true, label: "url" });
          }
          return null;
        },
        onGetProp(i) {
          if (i.base.id === "media") {
            if (i.name === "_contentBytes") return bytes;
            if (i.name === "_contentType") return vals.contentType;
          }
          if (i.base.id === "bytes" && (i.name === "length" || i.name === "byteLength")) return vals.len;
          return null;
        },
      };
      I = R.use(L.mkInterp(p, hooks));
      const st = new L.State();
      const mcls = L.findClass(p, "core", "LangfuseMedia");
      const media = S("media", { label: "media", ty: { kind: "object", nullable: false, cls: mcls } });
      // the opaque length is a positive number unless the scenario says otherwise
      if (nonEmpty) I.addRefine(st, single(vals.len), { t: true });
      for (const v of [hash, vals.contentType]) if (single(v) && single(v).k === "sym") I.addRefine(st, single(v), { t: true });
      const params = L.mkObj(I, st, "params", { apiClient: S("api", { label: "api", ty: { kind: "object", nullable: false } }), media, traceId: L.symStr("tid"), observationId: L.symStr("oid"), datasetId: L.symStr("did"), datasetItemId: L.symStr("diid"), field: L.symStr("field") });
      R.entry("uploadMedia: " + name);
      for (const o of L.callFunction(I, st, fn, [params])) {
        const qs = o.k === "ret" ? I.awaitVal(o.st, o.v, null, L.root) : [o];
        for (const q of qs) cfg.check(q, q.st, I);
      }
    };
    go("normal upload", {
      mayPut: true,
      check(q, st) {
        const last = st.fact("last"), n = st.fact("puts") || 0;
        const stored = last === "200" || last === "201";
        if (q.k === "ret") {
          R.ob("exit:success-means-stored", stored, `the upload fulfils although the last response was ${last}`, loc);
          R.ob("exit:success-reported", st.fact("patched") === 1, "the upload fulfils without reporting its status to the API", loc);
        } else {
          R.ob("exit:failure-justified", !stored || st.fact("apiFail"), `the upload rejects with ${L.labelsOf(q.v)} although the bytes were stored`, loc);
          if (!st.fact("apiFail")) {
            R.ob("exit:retries-exhausted", n === 4, `the upload gives up after ${n} attempts (last: ${last})`, loc);
            R.ob("exit:failure-reported", last === "neterr" || st.fact("patched") === 1, "a failed upload status is not reported to the API", loc);
          }
        }
        R.ob("exit:attempts-bounded", n <= 4, `${n}+ upload attempts`, loc);
      },
    });
    for (const [host, gcs] of [["storage.googleapis.com", true], ["bucket.storage.googleapis.com", true], ["evilstorage.googleapis.com", false], ["storage.googleapis.com.example.org", false], ["acct.blob.core.windows.net", false]])
      go("upload to " + host, {
        mayPut: true, gcs, statuses: [200, 503], url: C(`https://${host}/b/k?sig=1`),
        check(q, st) {
          R.ob("host:" + host, q.k === "throw" ? st.fact("last") !== "200" || !!st.fact("apiFail") : st.fact("last") === "200", "the upload's outcome does not follow the storage's answer", loc);
        },
      });
    const never = (name, cfg, rejects) =>
      go(name, {
        ...cfg,
        mayPut: false,
        check(q, st) {
          if (rejects !== null) R.ob("skip:" + name.replace(/[^a-z]+/gi, "-"), rejects ? q.k === "throw" : q.k === "ret" || !!st.fact("apiFail"), `${name}: the upload ${q.k === "ret" ? "fulfils" : "rejects"}`, loc);
          R.ob("skip:no-put", !st.fact("puts"), `${name}: bytes are sent`, loc);
        },
      });
    never("the server already has the media", { url: V.NULL }, false);
    never("server and client disagree on the media id", { mediaId: "id-other" }, true);
    never("the media has no bytes", { bytes: UNDEF, hash: UNDEF }, true);
    never("the media has no hash", { hash: UNDEF }, true);
    never("the media has no content type", { ctype: UNDEF }, true);
    // LangfuseMedia itself: the tag and id never reject and are null when the content is unusable
    {
      const I = R.use(L.mkInterp(p, { opts: {} }));
      const cls = L.findClass(p, "core", "LangfuseMedia");
      for (const [nm, params] of [["data-uri", { source: C("base64_data_uri"), base64DataUri: S("uri", { ty: { kind: "any", nullable: true } }) }], ["bytes", { source: C("bytes"), contentBytes: S("cb", { ty: { kind: "object", nullable: true } }), contentType: S("ct", { ty: { kind: "string", nullable: true } }) }]]) {
        const st = new L.State();
        R.entry(`new LangfuseMedia(${nm}).getTag()`);
        for (const o of L.newInstance(I, st, cls, [L.mkObj(I, st, "mp" + nm, params)], "m" + nm)) {
          R.ob("media:ctor-total:" + nm, o.k === "ret", `constructing media from ${nm} throws`, { loc: p.loc(cls) });
          if (o.k !== "ret") continue;
          for (const t of L.invoke(I, o.st, o.v, "getTag", [], "tag")) for (const q of t.k === "ret" ? I.awaitVal(t.st, t.v, null, L.root) : [t]) R.ob("media:tag-total:" + nm, q.k === "ret", `getTag of media from ${nm} rejects with ${L.labelsOf(q.v)}`, { loc: p.loc(cls) });
        }
      }
    }
  },
};
