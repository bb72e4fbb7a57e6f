"use strict";
const { L, V, where, isProcCall, mkProcessor, mkSpan, stubUpload } = require("./_common.js");
const { S, C, UNDEF, single, isConst, constOf } = V;
// inline media written by users or by the AI SDKs, in every form the processor documents. `tagged` lists the
// media that have to be uploaded and replaced, each with the text that stands for it in the attribute.
const A = "QUJD";
const B = "REVG";
const uri = (d, t = "image/png") => `data:${t};base64,${d}`;
const m = (type, data, text) => ({ type, data, text: text || uri(data, type) });
const j = (x) => JSON.stringify(x);
const v6 = (parts) => j([{ role: "user", content: parts }]);
const v7 = (parts) => j([{ role: "user", parts }]);
function shapes(E) {
  const out = [];
  const inline = [];
  for (const [k, field] of [["OBSERVATION_INPUT", "input"], ["TRACE_INPUT", "input"], ["OBSERVATION_OUTPUT", "output"], ["TRACE_OUTPUT", "output"], ["OBSERVATION_METADATA", "metadata"], ["TRACE_METADATA", "metadata"]]) inline.push([E[k], field]);
  inline.push([E.OBSERVATION_METADATA + ".photo", "metadata"], [E.TRACE_METADATA + ".photo", "metadata"]);
  const one = m("image/png", A);
  const two = m("audio/mpeg", B);
  for (const [attr, field] of inline) {
    const add = (name, value, tagged) => out.push({ name: `${attr}:${name}`, attr, field, value, tagged, scope: "langfuse-sdk" });
    add("data URI alone", uri(A), [one]);
    add("data URI inside JSON", j({ role: "user", image_url: { url: uri(A) }, text: "hi" }), [one]);
    add("two media", j([uri(A), { x: uri(B, "audio/mpeg") }]), [one, two]);
    add("the same media twice", j([uri(A), uri(A)]), [one]);
    add("padded data", j({ url: uri("QQ==") }), [m("image/png", "QQ==")]);
    add("plain text", j({ text: "no media here" }), []);
    add("data URI that is not base64", j({ url: "data:text/plain,hello" }), []);
    add("url", j({ url: "https://example.com/a.png" }), []);
  }
  for (const scope of ["ai", "gen_ai"]) {
    for (const attr of ["ai.prompt.messages", "ai.prompt"]) {
      const add = (name, value, tagged) => out.push({ name: `${scope}:${attr}:${name}`, attr, field: "input", value, tagged, scope });
      const file = (over) => ({ type: "file", mediaType: "image/png", ...over });
      add("file part", v6([{ type: "text", text: "hi" }, file({ data: A })]), [m("image/png", A, A)]);
      add("image part", v6([file({ image: A })]), [m("image/png", A, A)]);
      add("two parts", v6([file({ data: A }), file({ data: B, mediaType: "application/pdf" })]), [m("image/png", A, A), m("application/pdf", B, B)]);
      add("two messages", j([{ role: "system", content: "x" }, { role: "user", content: [file({ data: A })] }, { role: "user", content: [file({ data: B })] }]), [m("image/png", A, A), m("image/png", B, B)]);
      add("file by url", v6([file({ data: "https://example.com/a.png" })]), []);
      add("file by url before inline file", v6([file({ data: "https://example.com/a.png" }), file({ data: A })]), [m("image/png", A, A)]);
      add("image by url", v6([file({ image: "http://example.com/a.png" })]), []);
      add("file part without type", v6([{ type: "file", data: A }, file({ data: B })]), [m("image/png", B, B)]);
      add("text part", v6([{ type: "text", mediaType: "image/png", data: A }]), []);
      add("string content", j([{ role: "user", content: A }]), []);
      add("not an array", j({ content: [file({ data: A })] }), []);
      add("not JSON", "[{ broken", []);
    }
    for (const [attr, field] of [["gen_ai.input.messages", "input"], ["gen_ai.output.messages", "output"]]) {
      const add = (name, value, tagged) => out.push({ name: `${scope}:${attr}:${name}`, attr, field, value, tagged, scope });
      const blob = (over) => ({ type: "blob", mime_type: "image/png", ...over });
      add("blob", v7([{ type: "text", content: "hi" }, blob({ content: A })]), [m("image/png", A, A)]);
      add("blob with data URI", v7([blob({ content: uri(A) })]), [m("image/png", A, uri(A))]);
      add("two blobs", v7([blob({ content: A }), blob({ content: B, mime_type: "audio/wav" })]), [m("image/png", A, A), m("audio/wav", B, B)]);
      add("two messages", j([{ role: "user", content: "x" }, { role: "user", parts: [blob({ content: A })] }, { role: "user", parts: [blob({ content: B })] }]), [m("image/png", A, A), m("image/png", B, B)]);
      add("blob by url", v7([blob({ content: "https://example.com/a.png" }), blob({ content: A })]), [m("image/png", A, A)]);
      add("blob without type", v7([{ type: "blob", content: A }, blob({ content: B })]), [m("image/png", B, B)]);
      add("other part", v7([{ type: "text", mime_type: "image/png", content: A }, blob({ content: B })]), [m("image/png", B, B)]);
      add("data URI that is not base64", v7([blob({ content: "data:text/plain,hello" }), blob({ content: A })]), [m("image/png", A, A)]);
      add("empty data URI", v7([blob({ content: "data:image/png;base64," }), blob({ content: A })]), [m("image/png", A, A)]);
      add("empty blob", v7([blob({ content: "" }), blob({ content: A })]), [m("image/png", A, A)]);
      add("not an array", j({ parts: [blob({ content: A })] }), []);
      add("not JSON", "[{ broken", []);
    }
  }
  for (const attr of ["ai.prompt.messages", "gen_ai.input.messages"]) out.push({ name: `http:${attr}:other instrumentation`, attr, value: attr[0] === "a" ? v6([{ type: "file", mediaType: "image/png", data: A }]) : v7([{ type: "blob", mime_type: "image/png", content: A }]), tagged: [], scope: "http" });
  return out;
}
module.exports = {
  id: "P49",
  title: "inline media is recognised in every supported form and nothing else is taken for media",
  rule: "For each supported form of inline media (data URI in an input, output or metadata attribute; AI SDK v6 file and image parts; AI SDK v7 blobs), the span reaches the exporter with exactly the media text replaced by the media's tag, the upload carries the declared content type, the decoded content and the field, and look-alikes (urls, plain text, parts of other types, malformed JSON) stay untouched and cause no upload",
  assumptions: ["one abstract run per listed attribute shape (constant texts, unknown environment)", "a tag cannot be made for at most the first media"],
  min: 300,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const tagOf = (d) => `@@@tag:${d}@@@`;
    for (const c of shapes(E))
      for (const lost of c.tagged.length > 1 ? [null, c.tagged[0]] : c.tagged.length ? [null] : [null]) {
        const name = c.name + (lost ? " (first tag fails)" : "");
        let I, exports = 0;
        const dataOf = (v) => {
          const all = [A, B, "QQ=="].filter((d) => v && v.key.includes(d));
          return all.length === 1 ? all[0] : null;
        };
        const bytesOf = (st, mv) => {
          const r = mv && single(mv) && st.rec(single(mv));
          return r && r.props ? r.props.get("_contentBytes") : null;
        };
        const hooks = {
          opts: { stringifyThrows: false },
          onCall(info) {
            if (info.callee.k === "bi" && /^(atob|Uint8Array\.from|Buffer\.from)$/.test(info.callee.name)) {
              const d = dataOf(info.args[0]);
              if (d) return S(`bytes<${d}>`, { label: `bytes of ${d}`, ty: { kind: info.callee.name === "atob" ? "string" : "object", nullable: false } });
            }
            if (info.name === "spanContext") return L.mkObj(I, info.st, "sc", { traceId: L.symStr("traceId"), spanId: L.symStr("spanId") });
            if (!isProcCall(info, "onEnd")) return null;
            exports++;
            const W = where(I, info);
            const at = info.st.rec(single(info.st.rec(single(info.args[0])).props.get("attributes")));
            const v = at.props.get(c.attr);
            let want = c.value;
            for (const t of c.tagged) if (t !== lost) want = want.replaceAll(t.text, tagOf(t.data));
            R.ob(`value:${name}`, v === C(want), `${c.name}: the exported attribute is ${v ? L.labelsOf(v).slice(0, 160) : "missing"}, expected ${want.slice(0, 160)}`, W);
            R.ob(`other:${name}`, at.props.get("langfuse.other") === L.symStr("otherRaw"), "an unrelated attribute is changed", W);
            const ups = [...info.st.facts.keys()].filter((k) => k.startsWith("up:")).map((k) => k.slice(3)).sort();
            const exp = c.tagged.filter((t) => t !== lost).map((t) => `${t.data}|${t.type}`).sort();
            R.ob(`uploads:${name}`, ups.join() === exp.join(), `${c.name}: uploaded media are [${ups.join(", ")}], expected [${exp.join(", ")}]`, W);
            return null;
          },
        };
        const base = stubUpload((info) => {
          const a = info.st.rec(single(info.args[0]));
          const mv = a && a.props.get("media");
          const r = mv && single(mv) && info.st.rec(single(mv));
          const ty = r && r.props.get("_contentType");
          R.ob(`upload:${name}:field`, a && a.props.get("field") === C(c.field), `${c.name}: media is uploaded as field ${a && a.props.get("field") ? L.labelsOf(a.props.get("field")) : "?"}, expected ${c.field}`, where(I, info));
          R.ob(`upload:${name}:ids`, a && a.props.get("traceId") === L.symStr("traceId") && a.props.get("observationId") === L.symStr("spanId"), `${c.name}: media is not uploaded for the span it came from`, where(I, info));
          info.st.setFact(`up:${dataOf(bytesOf(info.st, mv)) || "?"}|${ty && isConst(ty) ? constOf(ty) : "?"}`);
        });
        hooks.onNew = () => null;
        hooks.stub = (node, info) => {
          if (L.clsName(node) === "LangfuseMedia") {
            if (L.fnNameOf(node) !== "getTag") return null;
            if (!info) return UNDEF;
            const d = dataOf(bytesOf(info.st, info.thisV));
            const v = !d || (lost && lost.data === d) ? V.NULL : C(tagOf(d));
            return [{ k: "ret", v: I.alloc(info.st, `tag:${info.frame.id}:${info.site}`, I.promRec("resolved", { v })), st: info.st }];
          }
          return base(node, info);
        };
        const pr = mkProcessor(p, R, hooks, { mask: UNDEF, shouldExportSpan: L.symFn("filter"), mediaUploadEnabled: C(true) });
        I = pr.I;
        const st = pr.st;
        const span = mkSpan(I, st, "span", { [c.attr]: C(c.value), "langfuse.other": L.symStr("otherRaw") }, [], { props: { instrumentationScope: L.mkObj(I, st, "scope", { name: C(c.scope) }) } });
        R.entry(`onEnd(span with ${name})`);
        for (const o of L.invoke(I, st, pr.proc, "onEnd", [span], "onEnd")) I.drain(o.st, L.root);
        R.ob(`exported:${name}`, exports > 0, `${c.name}: the span never reaches the exporter`);
      }
  },
};
