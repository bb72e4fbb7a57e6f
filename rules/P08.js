"use strict";
const { stubUpload: stubUploadOf, L, V, isProcCall, where, boundMatch, deepTaint, mkProcessor, mkSpan } = require("./_common.js");
const { S, C, UNDEF, single, taintOf, taintOfAtom, isConst, constOf } = V;
module.exports = {
  id: "P08",
  title: "inline media is replaced by a tag exactly when its upload was scheduled",
  rule: "On every path to the export delegate, an attribute value contains a media tag only if the upload of that very media was scheduled with the span's ids and the attribute's field, a scheduled upload's data is substituted in the attribute it came from, and with media handling disabled attributes are untouched and nothing is uploaded",
  assumptions: ["tags and uploads of LangfuseMedia are external (decided by P09)", "up to two inline media per attribute value; message attributes hold one message of one part with unknown fields, or fail to parse"],
  min: 12,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const cases = [];
    for (const k of ["OBSERVATION_INPUT", "TRACE_INPUT"]) cases.push({ attr: E[k], field: "input" });
    for (const k of ["OBSERVATION_OUTPUT", "TRACE_OUTPUT"]) cases.push({ attr: E[k], field: "output" });
    for (const k of ["OBSERVATION_METADATA", "TRACE_METADATA"]) cases.push({ attr: E[k], field: "metadata" }, { attr: E[k] + ".k", field: "metadata" });
    for (const scope of ["ai", "gen_ai"]) for (const [attr, field] of [["ai.prompt.messages", "input"], ["ai.prompt", "input"], ["gen_ai.input.messages", "input"], ["gen_ai.output.messages", "output"]]) cases.push({ attr, field, scope, ai: true });
    for (const media of [true, false])
      for (const c of cases) {
        if (!media && c.ai) continue;
        const name = (c.scope ? c.scope + ":" : "") + c.attr;
        let I, sawUpload = 0, sawTag = 0, sawExport = 0;
        const hooks = {
          opts: { stringifyThrows: false, K: 24 },
          onMedia: (info) => {},
          onUpload(info) {
            sawUpload++;
            R.ob(`disabled:${name}`, media, "media is uploaded although media handling is disabled", where(I, info));
            const a = info.st.rec(single(info.args[0]));
            const m = a && a.props.get("media") && single(a.props.get("media"));
            R.ob(`upload:${name}:field`, a && a.props.get("field") === C(c.field), `media of ${c.attr} is uploaded as field ${a && a.props.get("field") ? L.labelsOf(a.props.get("field")) : "?"}, expected ${c.field}`, where(I, info));
            R.ob(`upload:${name}:trace`, a && a.props.get("traceId") === L.symStr("traceId"), "media is not uploaded for the span's trace", where(I, info));
            R.ob(`upload:${name}:observation`, a && a.props.get("observationId") === L.symStr("spanId"), "media is not uploaded for the span", where(I, info));
            if (m) info.st.setFact("up:" + m.id);
          },
          onCall(info) {
            const bm = boundMatch(info, 2);
            if (bm) return bm;
            if (info.callee.k === "bi" && info.callee.name === "JSON.parse") {
              const part = (i) => L.mkObj(I, info.st, "part" + i, { type: S("ptype" + i), data: S("pdata" + i), image: S("pimage" + i), mediaType: S("pmt" + i), mime_type: S("pmime" + i), content: S("pcontent" + i) });
              const parts = L.mkArr(I, info.st, "parts", [part(0)]);
              const msgs = L.mkArr(I, info.st, "msgs", [L.mkObj(I, info.st, "msg", { content: parts, parts })]);
              return [{ k: "throw", v: S("parseErr"), st: info.st.clone() }, { k: "ret", v: msgs, st: info.st }];
            }
            if (info.name === "spanContext") return L.mkObj(I, info.st, "sc", { traceId: L.symStr("traceId"), spanId: L.symStr("spanId") });
            if (isProcCall(info, "onEnd")) {
              sawExport++;
              const at = info.st.rec(single(info.st.rec(single(info.args[0])).props.get("attributes")));
              const v = at.props.get(c.attr);
              const W = where(I, info);
              if (!media) {
                R.ob(`disabled:${name}:untouched`, v === L.symStr("raw"), "the attribute is changed although media handling is disabled", W);
                return null;
              }
              const other = at.props.get("langfuse.other");
              R.ob(`other-untouched`, other === L.symStr("otherRaw"), "an attribute that is not a media attribute is changed", W);
              const ups = [...info.st.facts.keys()].filter((k) => k.startsWith("up:")).map((k) => k.slice(3));
              for (const a of v ? v.atoms : []) {
                const tags = taintOfAtom(a).filter((t) => t.startsWith("tag:")).map((t) => t.slice(4));
                if (tags.length) sawTag++;
                for (const t of tags) R.ob(`tag-needs-upload:${name}`, ups.includes(t), `${c.attr} is exported with the tag of a media whose upload was never scheduled`, W);
                if (v.atoms.length === 1) for (const u of ups) R.ob(`upload-needs-tag:${name}`, tags.includes(u), `the upload of a media of ${c.attr} is scheduled but the attribute still carries the raw data`, W);
                // each substitution replaces the data the tag was made of
                const walk = (x, d = 0) => {
                  if (d > 6 || x.k !== "sym" || !/^str\.replace/.test(x.op || "")) return;
                  const [base, pat, rep] = x.args;
                  for (const t of taintOf(rep).filter((q) => q.startsWith("tag:"))) {
                    const content = I.mediaContent && I.mediaContent.get(t.slice(4));
                    if (content && !c.ai) R.ob(`substitutes-own-data:${name}`, content.some((y) => y === pat), "a media tag is substituted for other data than the media's", W);
                  }
                  for (const y of base.atoms) walk(y, d + 1);
                };
                walk(a);
              }
            }
            return null;
          },
        };
        const { mediaNew, stubUpload } = require("./_common.js");
        hooks.onNew = (info) => {
          if (info.callee.k === "cls" && info.callee.node.name && info.callee.node.name.text === "LangfuseMedia") {
            const r = info.st.rec(single(info.args[0]));
            const content = r ? [r.props.get("base64DataUri"), r.props.get("contentBytes")].filter(Boolean) : [];
            const id = "media(" + V.hash(content.map((x) => x.key).join()) + ")";
            (I.mediaContent = I.mediaContent || new Map()).set(id, content);
            return S(id, { label: "media", ty: { kind: "object", nullable: false, cls: info.callee.node } });
          }
          return null;
        };
        const base = stubUpload(hooks.onUpload);
        hooks.stub = (node, info) => {
          if (L.clsName(node) === "LangfuseMedia" && L.fnNameOf(node) === "getTag" && info) {
            const m = single(info.thisV);
            const mk = (v, st) => ({ k: "ret", v: I.alloc(st, `tag:${info.frame.id}:${info.site}`, I.promRec("resolved", { v })), st });
            const s2 = info.st.clone();
            return [mk(V.NULL, s2), mk(S(`tag(${m.id})`, { label: "media tag", ty: { kind: "string", nullable: false }, taint: ["tag:" + m.id] }), info.st)];
          }
          return base(node, info);
        };
        const pr = mkProcessor(p, R, hooks, { mask: UNDEF, shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(media) });
        I = pr.I;
        const st = pr.st;
        I.addRefine(st, single(S("tag")), {});
        const span = mkSpan(I, st, "span", { [c.attr]: L.symStr("raw"), "langfuse.other": L.symStr("otherRaw") }, [], { props: { instrumentationScope: L.mkObj(I, st, "scope", { name: C(c.scope || "x") }) } });
        R.entry(`onEnd(span with ${name}), media ${media ? "on" : "off"}`);
        for (const o of L.invoke(I, st, pr.proc, "onEnd", [span], "onEnd")) I.drain(o.st, L.root);
        R.ob(`exported:${name}:${media}`, sawExport > 0, "the span never reaches the export delegate");
        if (media) {
          R.ob(`handled:${name}`, sawUpload > 0, `inline media of ${c.attr} is never uploaded`);
          R.ob(`substituted:${name}`, sawTag > 0, `inline media of ${c.attr} is never replaced by its tag`);
        }
      }
    concrete(p, R, E);
  },
};
// concrete attribute values: what the exported attribute must read, and which media are uploaded under which field
function concrete(p, R, E) {
  const A = "data:image/png;base64,iVBORw0KGgoAAAA=", B = "data:audio/wav;base64,UklGRiQAAABXQVZF", G = "data:image/svg+xml;base64,PHN2Zy8+", D = "data:application/vnd.openxmlformats-officedocument.wordprocessingml.document;base64,UEsDBA==", J = JSON.stringify;
  const tagOf = (c) => `@@@langfuseMedia:${c}@@@`;
  const T = { [A]: tagOf("A"), [B]: tagOf("B"), [G]: tagOf("G"), [D]: tagOf("D"), QUJDREVG: tagOf("Q"), WFlaMTIz: tagOf("W") };
  const sub = (s, ...cs) => cs.reduce((t, c) => t.split(c).join(T[c]), s);
  const cases = [];
  const plain = (attr, field, tag, v, ...cs) => cases.push({ tag: `${attr}:${tag}`, scope: "x", attr, v, want: sub(v, ...cs), ups: cs.map((c) => [T[c], field]) });
  for (const [attr, field] of [[E.OBSERVATION_INPUT, "input"], [E.TRACE_INPUT, "input"], [E.OBSERVATION_OUTPUT, "output"], [E.TRACE_OUTPUT, "output"], [E.OBSERVATION_METADATA, "metadata"], [E.OBSERVATION_METADATA + ".input_file", "metadata"], [E.TRACE_METADATA + ".output", "metadata"], [E.TRACE_METADATA + ".a.b", "metadata"]]) {
    plain(attr, field, "whole", A, A);
    plain(attr, field, "twice", J({ a: A, b: ["x", A], c: "text " + A + "!" }), A);
    plain(attr, field, "two", J([{ image: A }, { sound: B, text: "hello" }]), A, B);
    plain(attr, field, "mixed", J([A, B, A, B]), A, B);
    plain(attr, field, "types", J({ g: G, d: [D] }), G, D);
    plain(attr, field, "none", J({ t: "data: none", u: "data:,x", n: 3 }));
  }
  const ai = (attr, field, tag, val, ups, want) => {
    const v = typeof val === "string" ? val : J(val);
    for (const scope of ["ai", "gen_ai"]) cases.push({ tag: `${scope}:${attr}:${tag}`, scope, attr, v, want: want === undefined ? v : typeof want === "string" ? want : J(want), ups: ups.map(([c, type]) => [T[c], field, type]) });
    cases.push({ tag: `foreign:${attr}:${tag}`, scope: "http", attr, v, want: v, ups: [] });
  };
  const Q = "QUJDREVG", W = "WFlaMTIz";
  const msg = (...content) => ({ role: "user", content });
  const file = (o) => ({ type: "file", mediaType: "image/png", ...o });
  const url = "https://host.example/pic.png";
  for (const attr of ["ai.prompt.messages", "ai.prompt"]) {
    ai(attr, "input", "data", [msg(file({ data: Q }))], [[Q, "image/png"]], [msg(file({ data: T[Q] }))]);
    ai(attr, "input", "image", [msg({ type: "text", text: "hi" }, file({ image: W, mediaType: "image/jpeg" }))], [[W, "image/jpeg"]], [msg({ type: "text", text: "hi" }, file({ image: T[W], mediaType: "image/jpeg" }))]);
    ai(attr, "input", "parts", [msg(file({ data: Q }), { type: "text", text: "x" }, file({ data: W, mediaType: "application/pdf" }))], [[Q, "image/png"], [W, "application/pdf"]], [msg(file({ data: T[Q] }), { type: "text", text: "x" }, file({ data: T[W], mediaType: "application/pdf" }))]);
    ai(attr, "input", "messages", [{ role: "system", content: "be nice" }, msg(file({ data: Q })), msg(file({ data: W }))], [[Q, "image/png"], [W, "image/png"]], [{ role: "system", content: "be nice" }, msg(file({ data: T[Q] })), msg(file({ data: T[W] }))]);
    ai(attr, "input", "same-twice", [msg(file({ data: Q })), msg(file({ data: Q }))], [[Q, "image/png"]], [msg(file({ data: T[Q] })), msg(file({ data: T[Q] }))]);
    ai(attr, "input", "url", [msg(file({ data: url }), file({ image: url }))], []);
    ai(attr, "input", "url-then-media", [msg(file({ data: url }), file({ data: W }))], [[W, "image/png"]], [msg(file({ data: url }), file({ data: T[W] }))]);
    ai(attr, "input", "url-and-image", [msg(file({ data: url, image: W }))], [[W, "image/png"]], [msg(file({ data: url, image: T[W] }))]);
    ai(attr, "input", "no-type", [msg({ type: "file", data: Q })], []);
    ai(attr, "input", "not-a-file", [msg({ type: "text", data: Q, mediaType: "image/png" })], []);
    ai(attr, "input", "not-json", "plain prompt", []);
    ai(attr, "input", "null-part", [msg(null, file({ data: url }))], []);
    ai(attr, "input", "media-null", [msg(file({ data: Q }), null), null, msg(file({ data: W }))], [[Q, "image/png"], [W, "image/png"]], [msg(file({ data: T[Q] }), null), null, msg(file({ data: T[W] }))]);
    ai(attr, "input", "media-undecodable", [msg(file({ data: Q }), file({ data: "not base64!" })), msg(file({ data: W }))], [[Q, "image/png"], [W, "image/png"]], [msg(file({ data: T[Q] }), file({ data: "not base64!" })), msg(file({ data: T[W] }))]);
  }
  const pm = (...parts) => ({ role: "user", parts });
  const blob = (content, o) => ({ type: "blob", mime_type: "image/png", content, ...o });
  for (const [attr, field] of [["gen_ai.input.messages", "input"], ["gen_ai.output.messages", "output"]]) {
    ai(attr, field, "blob", [pm(blob(Q))], [[Q, "image/png"]], [pm(blob(T[Q]))]);
    ai(attr, field, "data-uri", [pm(blob("data:image/png;base64," + Q))], [[Q, "image/png"]], [pm(blob(T[Q]))]);
    ai(attr, field, "parts", [pm(blob(Q), { type: "text", content: "hello" }, blob(W, { mime_type: "audio/wav" }))], [[Q, "image/png"], [W, "audio/wav"]], [pm(blob(T[Q]), { type: "text", content: "hello" }, blob(T[W], { mime_type: "audio/wav" }))]);
    ai(attr, field, "messages", [{ role: "system", parts: "x" }, pm(blob(Q)), pm(blob(W))], [[Q, "image/png"], [W, "image/png"]], [{ role: "system", parts: "x" }, pm(blob(T[Q])), pm(blob(T[W]))]);
    ai(attr, field, "url", [pm(blob(url), blob(W))], [[W, "image/png"]], [pm(blob(url), blob(T[W]))]);
    ai(attr, field, "no-type", [pm({ type: "blob", content: Q })], []);
    ai(attr, field, "not-a-blob", [pm({ type: "text", content: Q, mime_type: "text/plain" })], []);
    ai(attr, field, "not-json", "plain", []);
    ai(attr, field, "media-null", [pm(blob(Q), null), null, pm(blob(W))], [[Q, "image/png"], [W, "image/png"]], [pm(blob(T[Q]), null), null, pm(blob(T[W]))]);
    ai(attr, field, "media-undecodable", [pm(blob(Q), blob("not base64!")), pm(blob(W))], [[Q, "image/png"], [W, "image/png"]], [pm(blob(T[Q]), blob("not base64!")), pm(blob(T[W]))]);
  }
  const constIn = (v, d = 0) => {
    if (!v || d > 5) return null;
    if (isConst(v)) return typeof constOf(v) === "string" && constOf(v).length > 6 ? constOf(v) : null;
    for (const a of v.atoms || []) for (const x of a.args || []) { const c = constIn(x && x.atoms ? x : null, d + 1); if (c) return c; }
    return null;
  };
  // spans with several attributes, and several spans of one processor
  const byTag = (t) => cases.find((c) => c.tag === t) || (() => { throw new Error("no case " + t); })();
  const IN = E.OBSERVATION_INPUT, OUT = E.OBSERVATION_OUTPUT, MD = E.OBSERVATION_METADATA + ".input_file";
  const many = (tag, scope, ...ts) => {
    const cs = ts.map(byTag);
    return { tag, scope, attrs: Object.fromEntries(cs.map((c) => [c.attr, c.v])), wants: Object.fromEntries(cs.map((c) => [c.attr, c.want])), ups: cs.flatMap((c) => c.ups) };
  };
  const one = (t, scope) => many(t, scope || byTag(t).scope, t);
  const spansOf = [
    ...cases.map((c) => [{ ...c, attrs: { [c.attr]: c.v }, wants: { [c.attr]: c.want } }]),
    [many("same media in two attributes", "x", `${IN}:whole`, `${OUT}:whole`)],
    [many("same media in three attributes", "x", `${IN}:two`, `${OUT}:twice`, `${MD}:whole`)],
    [many("media in one of two attributes", "x", `${IN}:none`, `${OUT}:two`)],
    [many("media after an attribute without", "x", `${IN}:whole`, `${OUT}:none`, `${MD}:two`)],
    [many("inline and AI SDK media", "ai", `${IN}:whole`, "ai:ai.prompt.messages:parts", "ai:gen_ai.output.messages:blob")],
    [many("same AI SDK media twice", "ai", "ai:ai.prompt.messages:data", "ai:ai.prompt:data", "ai:gen_ai.input.messages:blob", "ai:gen_ai.output.messages:data-uri")],
    [many("broken AI SDK attribute first", "ai", "ai:ai.prompt.messages:not-json", "ai:ai.prompt:data", "ai:gen_ai.input.messages:not-json", "ai:gen_ai.output.messages:blob")],
    [one(`${IN}:whole`), one(`${IN}:whole`), one(`${OUT}:whole`)],
    [one(`${IN}:two`), one(`${IN}:none`), one(`${IN}:twice`), one(`${OUT}:mixed`)],
    [one("ai:ai.prompt.messages:data"), one("foreign:ai.prompt.messages:data"), one("ai:ai.prompt.messages:data"), one(`${IN}:whole`)],
    [one("ai:gen_ai.input.messages:not-json"), one("ai:gen_ai.input.messages:blob"), one("ai:gen_ai.output.messages:blob")],
  ];
  for (const list of spansOf) {
    let I, exported = 0;
    const tagAll = list.map((c) => c.tag).join(" > ");
    const uploads = new Set();
    const hooks = {
      opts: { stringifyThrows: false, K: 24, maxElems: 8 },
      debugEnabled: false,
      onUpload(info) {
        const a = info.st.rec(single(info.args[0]));
        const m = a && a.props.get("media") && single(a.props.get("media"));
        const f = a && a.props.get("field"), ob = a && a.props.get("observationId");
        info.st.setFact(`u|${(m && m.mediaTag) || "?"}|${f && isConst(f) ? constOf(f) : "?"}|${(m && m.mediaType) || ""}|${ob && isConst(ob) ? constOf(ob) : "?"}`);
      },
      onNew(info) {
        if (!(info.callee.k === "cls" && info.callee.node.name && info.callee.node.name.text === "LangfuseMedia")) return null;
        const r = info.st.rec(single(info.args[0]));
        const uri = r && r.props.get("base64DataUri"), bytes = r && r.props.get("contentBytes"), ct = r && r.props.get("contentType");
        const content = uri && uri !== UNDEF ? (isConst(uri) ? constOf(uri) : null) : (bytes && bytes.atoms.length === 1 && bytes.atoms[0].b64) || constIn(bytes);
        const tg = content === null ? "?" : T[content] || tagOf("other:" + content);
        const ty = uri && uri !== UNDEF ? "" : ct && isConst(ct) ? String(constOf(ct)) : "?";
        return S(`cm:${tg}:${ty}`, { label: "media", ty: { kind: "object", nullable: false, cls: info.callee.node }, mediaTag: tg, mediaType: ty });
      },
      onCall(info) {
        if (info.name === "spanContext") {
          const id = ((single(info.thisV) || {}).key || "").replace(/^o:/, "");
          return L.mkObj(I, info.st, "sc:" + id, { traceId: L.symStr("traceId"), spanId: C(id) });
        }
        if (isProcCall(info, "onEnd")) {
          exported++;
          const W0 = where(I, info);
          const at = info.st.rec(single(info.st.rec(single(info.args[0])).props.get("attributes")));
          const key = (single(info.args[0]) || {}).key || "";
          const k = +/(\d+)$/.exec(key)?.[1] || 0;
          const c = list[k];
          if (!R.ob(`own:${tagAll}`, c, `an unknown span (${key}) is exported`, W0)) return null;
          const what = list.length > 1 ? `span ${k + 1} of ${tagAll}: ` : "";
          for (const [attr, want] of Object.entries(c.wants)) {
            const v = at && at.props.get(attr);
            R.ob(`text:${tagAll}:${k}:${attr}`, v && isConst(v) && constOf(v) === want, `${what}${attr} = ${c.attrs[attr]} is exported as ${v ? L.labelsOf(v) : "nothing"} instead of ${want}`, W0);
          }
          const shown = what + JSON.stringify(c.attrs);
          const got = [...info.st.facts.keys()].filter((x) => x.startsWith("u|") && x.endsWith("|span" + k));
          const want = c.ups.map(([t, f, ty]) => `u|${t}|${f}|${ty || ""}|span${k}`);
          R.ob(`uploads:${tagAll}:${k}`, want.every((w) => got.includes(w)), `of ${shown} the upload ${want.find((w) => !got.includes(w))} (media|field|type) is not scheduled (scheduled: ${got.join(" ")})`, W0);
          R.ob(`no-other-uploads:${tagAll}:${k}`, got.every((g) => want.includes(g)), `of ${shown} the upload ${got.find((w) => !want.includes(w))} (media|field|type) is scheduled`, W0);
        }
        return null;
      },
    };
    const base = stubUploadOf(hooks.onUpload);
    hooks.stub = (node, info) => {
      if (L.clsName(node) === "LangfuseMedia" && info) {
        const m = single(info.thisV);
        if (L.fnNameOf(node) === "getTag") return [{ k: "ret", v: I.alloc(info.st, `tag:${info.frame.id}:${info.site}`, I.promRec("resolved", { v: C((m && m.mediaTag) || "?") })), st: info.st }];
      }
      if (L.fnNameOf(node) === "base64ToBytes" && info && isConst(info.args[0])) {
        const s = constOf(info.args[0]);
        if (!/^[A-Za-z0-9+/]*={0,2}$/.test(s)) return [{ k: "throw", v: S("err:atob", { label: "InvalidCharacterError", isError: true }), st: info.st }];
        return [{ k: "ret", v: S("bytes:" + s, { label: "bytes", ty: { kind: "object", nullable: false }, b64: s }), st: info.st }];
      }
      return base(node, info);
    };
    const pr = mkProcessor(p, R, hooks, { mask: UNDEF, shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(true) });
    I = pr.I;
    let sts = [pr.st];
    list.forEach((c, k) => {
      const at = exported;
      sts = sts.flatMap((st) => {
        const span = mkSpan(I, st, "span" + k, Object.fromEntries(Object.entries(c.attrs).map(([a, v]) => [a, C(v)])), [], { props: { instrumentationScope: L.mkObj(I, st, "scope" + k, { name: C(c.scope) }) } });
        return L.invoke(I, st, pr.proc, "onEnd", [span], "onEnd" + k).flatMap((o) => I.drain(o.st, L.root));
      });
      R.ob(`exported:${tagAll}:${k}`, exported > at, "the span never reaches the export delegate");
    });
  }
  R.entry("onEnd(span with concrete media values)");
}
