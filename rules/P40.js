"use strict";
const { L, V, prop, where } = require("./_common.js");
const { scripts } = require("./_lcscripts.js");
const { mkLC, msg, serialized, lab } = require("./_langchain.js");
const { METAS, obj, arr } = require("./P38.js");
const { startArgs } = require("./P39.js");
const { S, C, UNDEF, NULL, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const list = (st, v) => {
  const a = v && single(v), r = a && a.k === "obj" && st.rec(a);
  return r && r.elems ? r.elems.map((e) => lab(e.v)) : null;
};
module.exports = {
  id: "P40",
  title: "LangChain traces carry user, session, tags and metadata; prompts link once",
  rule: "A root chain is started inside propagateAttributes with the user and session of the run's metadata, else of the handler, the union of run and handler tags without duplicates, the handler's metadata as strings and its version; a prompt given to a prompt run is linked to the first generation with the same parent and to no other generation, and forgotten when the parent ends or fails",
  assumptions: ["tracing calls and the logger do not throw"],
  min: 60,
  run(p, R) {
    const PARAMS = {
      none: null,
      full: (I, st) => obj(I, st, "cp", { userId: C("cu"), sessionId: C("cs"), tags: arr(I, st, "cp.t", [C("b"), C("c")]), version: C("v1"), traceMetadata: obj(I, st, "cp.md", { s: C("str"), n: C(5), o: S("ob", { label: "ob", ty: OBJ }) }) }),
      empty: (I, st) => obj(I, st, "cp", {}),
    };
    const TAGS = { none: null, some: ["a", "b"], dup: ["a", "a"], empty: [] };
    for (const [pn, pm] of Object.entries(PARAMS))
      for (const [mn, mm] of Object.entries(METAS))
        for (const [tn, tags] of Object.entries(TAGS)) {
          const tag = `handler ${pn}, metadata ${mn}, tags ${tn}`;
          let n = 0;
          const full = pn === "full";
          const X = mkLC(p, R, tag, {
            params: pm,
            opts: { stringifyThrows: false },
            hooks: {
              onPropagate(info, a) {
                n++;
                const st = info.st, w = where(info.interp, info);
                const g = (k) => { const v = prop(st, a, k); return v && v !== UNDEF ? v : undefined; };
                R.ob(tag + ":userId", g("userId") === (mn === "full" ? C("mu") : full ? C("cu") : undefined), `userId is ${lab(g("userId"))}`, w);
                R.ob(tag + ":sessionId", g("sessionId") === (mn === "full" ? C("ms") : full ? C("cs") : undefined), `sessionId is ${lab(g("sessionId"))}`, w);
                R.ob(tag + ":version", g("version") === (full ? C("v1") : undefined), `version is ${lab(g("version"))}`, w);
                const want = [...new Set([...(tags || []), ...(full ? ["b", "c"] : [])])].map((x) => JSON.stringify(x)).sort();
                const got = g("tags") ? list(st, g("tags")) : [];
                R.ob(tag + ":tags", got && JSON.stringify([...got].sort()) === JSON.stringify(want), `tags are ${got}`, w);
                const m = g("metadata");
                R.ob(tag + ":metadata", full ? m && prop(st, m, "s") === C("str") && prop(st, m, "n") === C("5") && /stringify|JSON/i.test(lab(prop(st, m, "o"))) : !m, `metadata is ${lab(m)}, o = ${m ? lab(prop(st, m, "o")) : ""}`, w);
              },
            },
          });
          const s = X.seq(X.starts, "handleChainStart", (I, st) => startArgs("chain", I, st, { run: "r", tags: tags ? arr(I, st, "in.tags", tags.map((x) => C(x))) : UNDEF, meta: mm(I, st) }));
          R.ob(tag + ":propagated", n > 0 && s.length > 0, "no trace attributes are propagated");
          R.ob(tag + ":inside", X.info(1) && X.info(1).ctx !== "", "the root observation is started outside the propagated attributes");
          R.entry(tag);
        }
    // prompt linking
    const LP = (I, st, id) => obj(I, st, "in.md" + id, { langfusePrompt: S("prompt" + id, { label: "prompt" + id, ty: OBJ }) });
    const prompt = (id, parent, run) => ["handleChainStart", (I, st) => startArgs("chain", I, st, { run: run || "p" + id, parent: parent ? C(parent) : UNDEF, meta: LP(I, st, id) })];
    const promptEnd = (id) => ["handleChainEnd", () => [C("formatted"), C("p" + id)]];
    const chain = (id, parent) => ["handleChainStart", (I, st) => startArgs("chain", I, st, { run: id, parent: parent ? C(parent) : UNDEF })];
    const gen = (id, parent, cb = "llm") => ["G", cb === "llm" ? "handleLLMStart" : "handleChatModelStart", (I, st) => startArgs(cb, I, st, { run: id, parent: parent ? C(parent) : UNDEF })];
    const end = (id, cb = "handleChainEnd") => [cb, () => [C("x"), C(id)]];
    const SEQ = {
      "prompt then model": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), gen("g", "A")], want: ["prompt1"] },
      "prompt then chat": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), gen("g", "A", "chat")], want: ["prompt1"] },
      "linked once": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), gen("g", "A"), gen("h", "A")], want: ["prompt1", "undefined"] },
      "two prompts": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), gen("g", "A"), prompt(2, "A"), promptEnd(2), gen("h", "A")], want: ["prompt1", "prompt2"] },
      "replaced": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), prompt(2, "A"), promptEnd(2), gen("h", "A")], want: ["prompt2"] },
      "concurrent parents": { steps: [chain("A"), chain("B"), prompt(1, "A"), prompt(2, "B"), promptEnd(2), promptEnd(1), gen("g", "B"), gen("h", "A")], want: ["prompt2", "prompt1"] },
      "other parent": { steps: [chain("A"), chain("B"), prompt(1, "A"), promptEnd(1), gen("g", "B"), gen("h", "A")], want: ["undefined", "prompt1"] },
      "root model": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), gen("g", null)], want: ["undefined"] },
      "root prompt": { steps: [prompt(1, null), promptEnd(1), gen("g", null), gen("h", "p1")], want: ["undefined", "undefined"] },
      "parent ended": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), end("A"), gen("g", "A")], want: ["undefined"] },
      "parent failed": { steps: [chain("A"), prompt(1, "A"), promptEnd(1), end("A", "handleChainError"), gen("g", "A")], want: ["undefined"] },
      "nested chain": { steps: [chain("A"), chain("B", "A"), prompt(1, "B"), promptEnd(1), gen("g", "B"), gen("h", "A")], want: ["prompt1", "undefined"] },
      "no prompt": { steps: [chain("A"), gen("g", "A")], want: ["undefined"] },
    };
    for (const [tag, { steps, want }] of Object.entries(SEQ)) {
      const X = mkLC(p, R, tag);
      let s = X.starts;
      let k = 0, gi = 0;
      for (const stp of steps) {
        const g = stp[0] === "G";
        const [cb, mk] = g ? stp.slice(1) : stp;
        s = X.seq(s, cb, mk);
        if (/Start$/.test(cb)) k++;
        if (!g) continue;
        for (const q of s) R.ob(`${tag}:${gi}`, lab(X.attr(q.st, k, "prompt")) === want[gi], `generation ${gi + 1} is linked to ${lab(X.attr(q.st, k, "prompt"))} instead of ${want[gi]}`, X.info(k) && X.info(k).w);
        gi++;
      }
      R.ob(tag + ":reached", s.length > 0 && gi === want.length, "the callbacks never settle");
      R.entry(tag);
    }
    scripts(p, R, ["trace"]); // histories of known events
  },
};
