"use strict";
const { L, V, joinOuts, deepTaint, isProcCall, where, boundMatch, mkProcessor, mkSpan } = require("./_common.js");
const { S, taintOfAtom, single } = V;
module.exports = {
  id: "P01",
  title: "masking covers every payload attribute before the span leaves the process",
  rule: "With a mask configured, the value of every input/output/metadata attribute (exact key and flattened key prefix) that reaches the export delegate, the media uploader, the REST client or the log is the mask's result for that attribute, or a placeholder when the mask failed",
  assumptions: ["the user's mask is an unknown function that may throw or reject", "user callbacks (shouldExportSpan) legitimately see unmasked spans"],
  min: 10,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const exactKeys = ["OBSERVATION_INPUT", "OBSERVATION_OUTPUT", "OBSERVATION_METADATA", "TRACE_INPUT", "TRACE_OUTPUT", "TRACE_METADATA"].map((k) => E[k]);
    const flatKeys = [E.OBSERVATION_METADATA + ".", E.TRACE_METADATA + "."];
    let exported = 0, strict;
    const check = (info, args, what) => {
      for (const a of args) for (const d of deepTaint(info.st, a)) if (d.t.startsWith("raw:")) R.ob(`leak:${what}:${d.t.slice(4)}`, false, `the unmasked value of ${d.t.slice(4)} reaches ${what}`, where(I, info));
    };
    let I;
    const hooks = {
      opts: { taintThroughExt: true },
      onLog: (info, n) => check(info, info.args, "the log (" + n + ")"),
      onUpload: (info) => check(info, info.args, "the media upload"),
      onMedia: (info) => check(info, info.args, "a media object"),
      onApi: (info) => check(info, info.args, "the REST API"),
      onAwait(i) {
        if (i.atom.k === "sym" && i.atom.maskRes) {
          const s2 = i.st.clone();
          s2.setFact("maskFailed");
          return [
            { k: "throw", v: S("rej:mask"), st: s2 },
            { k: "ret", v: V.mkVal([i.atom]), st: i.st },
          ];
        }
        return null;
      },
      onCall(info) {
        const bm = boundMatch(info);
        if (bm) return bm;
        if (info.callee.k === "sym" && info.callee.id === "mask") {
          const t = new Set();
          for (const a of info.args) for (const d of deepTaint(info.st, a)) if (/^raw:/.test(d.t)) t.add("masked:" + d.t.slice(4));
          const s2 = info.st.clone();
          s2.setFact("maskFailed");
          R.ob("mask:called", true, "");
          return [
            { k: "throw", v: S("err:mask", { user: true }), st: s2 },
            { k: "ret", v: S("maskres@" + [...t].join(","), { label: "mask result", taint: [...t], maskRes: true, user: true }), st: info.st },
          ];
        }
        if (isProcCall(info, "onEnd")) {
          exported++;
          const sp = single(info.args[0]);
          const at = sp && info.st.rec(sp) && single(info.st.rec(sp).props.get("attributes"));
          const r = at && info.st.rec(at);
          if (!r) {
            R.ob("export:span", false, "the exported span could not be identified", where(I, info));
            return null;
          }
          const one = (key, v) => {
            for (const a of v.atoms) {
              const t = taintOfAtom(a);
              const ok = t.length ? t.every((x) => x === "masked:" + key) : a.k === "const" && info.st.fact("maskFailed");
              R.ob("export:" + key, ok, t.some((x) => x.startsWith("raw:")) ? `attribute ${key} is exported unmasked` : `attribute ${key} is exported as ${L.labelsOf(v)}, which is not the mask's result for it`, where(I, info));
            }
          };
          if (!strict) {
            check(info, info.args, "the exporter");
            return null;
          }
          for (const k of exactKeys) {
            const v = r.props.get(k);
            if (v) one(k, v);
            else R.ob("export:" + k, false, `attribute ${k} was removed instead of masked`, where(I, info));
          }
          for (const e of r.abs) {
            const k = flatKeys.find((f) => e.key.startsWith('t:"' + f));
            if (k) one(k + "*", e.v);
          }
        }
        return null;
      },
    };
    for (const media of [false, true]) {
      strict = !media;
      const pr = mkProcessor(p, R, hooks, { mask: L.symFn("mask"), mediaUploadEnabled: V.C(media) });
      I = pr.I;
      const exact = {};
      // attribute values are strings, numbers, booleans or arrays of them
      const ty = { kind: "mixed", nullable: false, kinds: ["string", "number", "boolean", "array"] };
      const raw = (k) => L.symStr("raw:" + k, media ? { taint: ["raw:" + k] } : { taint: ["raw:" + k], ty });
      for (const k of media ? exactKeys.slice(0, 3) : exactKeys) exact[k] = raw(k);
      const flat = flatKeys.slice(0, media ? 1 : 2).map((f) => ({ prefix: f, v: raw(f + "*") }));
      const span = mkSpan(I, pr.st, "span", exact, flat);
      R.entry(`LangfuseSpanProcessor.onEnd(span) with media upload ${media ? "enabled" : "disabled"}`);
      for (const o of L.invoke(I, pr.st, pr.proc, "onEnd", [span], "onEnd")) I.drain(o.st, L.root);
    }
    R.ob("export:reached", exported > 0, "no path hands the ended span to the export delegate");
    R.ob("mask:reached", R.obligations.some((o) => o.key === "mask:called"), "the mask is never called");
  },
};
