"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkTracing, keysOf } = require("./_tracing.js");
const { S, C, UNDEF, NULL, TRUE, FALSE, single, taintOf } = V;
const P = "langfuse.observation.";
const STR = { level: P + "level", statusMessage: P + "status_message", version: "langfuse.version", environment: "langfuse.environment", model: P + "model.name" };
const SER = { input: P + "input", output: P + "output", usageDetails: P + "usage_details", costDetails: P + "cost_details", completionStartTime: P + "completion_start_time", modelParameters: P + "model.parameters" };
module.exports = {
  id: "P27",
  title: "observation and trace attributes land under their own key, absent ones nowhere, and never fail",
  rule: "For every attribute, present as a string, as an arbitrary (possibly unserializable) value, as null or absent, alone and together: it is written under its own attribute key with the value itself (strings) or its JSON, or a constant placeholder if it cannot be serialized; absent and null values write no key; metadata objects are written one key per entry, other metadata under the metadata key; prompt name and version are written exactly for prompts that are not fallbacks; building attributes never throws",
  assumptions: ["the two metadata entries of the scenario stand for all"],
  min: 60,
  run(p, R) {
    const fObs = L.findFunction(p, "tracing", "createObservationAttributes");
    const fTr = L.findFunction(p, "tracing", "createTraceAttributes");
    const sv = (k) => S("s:" + k, { label: k, ty: { kind: "string", nullable: false }, taint: [k] });
    const ov = (k) => S("o:" + k, { label: k, ty: { kind: "object", nullable: false }, taint: [k] });
    const run = (tag, fn, mkArgs, expect, absent = []) => {
      const X = mkTracing(p, R, {});
      const outs = L.callFunction(X.I, X.st, fn, mkArgs(X.I, X.st), "attrs");
      let n = 0, full = 0;
      for (const q of outs) {
        if (!R.ob(tag + ":no-throw", q.k === "ret", `building the attributes throws (${L.labelsOf(q.v)})`)) continue;
        n++;
        const r = single(q.v) && q.st.rec(single(q.v));
        if (!R.ob(tag + ":definite", r && r.t === "obj" && !(r.abs && r.abs.length) && !r.spreads.length, "the attributes are not definite")) continue;
        let all = true;
        for (const [k, want] of Object.entries(expect)) {
          const v = r.props.get(k);
          const keep = want.raw ? v === want.raw : v && (taintOf(v).length === 1 && taintOf(v)[0] === want.taint && (want.num || v.atoms.every((a) => a.k === "const" || /^json\(/.test(a.id || ""))));
          const ph = !want.raw && v && V.isConst(v) && typeof V.constOf(v) === "string" && V.constOf(v).length > 0;
          if (!keep) all = false;
          R.ob(`${tag}:${k}`, keep || ph, `${k} is ${L.labelsOf(v || UNDEF)}`);
        }
        if (all) full++;
        for (const k of r.props.keys()) R.ob(tag + ":only", k in expect || r.props.get(k) === UNDEF, `the key ${k} is written although nothing was given for it`);
        for (const k of absent) R.ob(tag + ":absent", !r.props.has(k) || r.props.get(k) === UNDEF, `the key ${k} is written`);
      }
      R.entry("createObservationAttributes " + tag);
      R.ob(tag + ":reached", n > 0 && full > 0, "no path writes all given values");
    };
    const type = { [P + "type"]: { raw: C("generation") } };
    const one = (fields, I, st) => [C("generation"), L.mkObj(I, st, "in", fields(I, st))];
    const cases = (k) => [
      ["string", () => ({ [k]: sv(k) }), { raw: sv(k) }],
      ["null", () => ({ [k]: NULL }), null],
      ["undefined", () => ({ [k]: UNDEF }), null],
      ...(SER[k] ? [["value", () => ({ [k]: ov(k) }), { taint: k }], ["list", (I, st) => ({ [k]: L.mkArr(I, st, "l", [ov(k)]) }), { taint: k }], ["empty", () => ({ [k]: C("") }), { raw: C("") }], ["zero", () => ({ [k]: C(0) }), { raw: C("0") }], ["false", () => ({ [k]: FALSE }), { raw: C("false") }]] : []),
    ];
    for (const [k, key] of Object.entries({ ...STR, ...SER }))
      for (const [cn, mk, want] of cases(k)) run(`${k}:${cn}`, fObs, (I, st) => one(mk, I, st), { ...type, ...(want ? { [key]: want } : {}) }, want ? [] : [key]);
    // everything at once
    run("all", fObs, (I, st) => one(() => ({ ...Object.fromEntries(Object.keys(STR).map((k) => [k, sv(k)])), ...Object.fromEntries(Object.keys(SER).map((k) => [k, ov(k)])) }), I, st), { ...type, ...Object.fromEntries(Object.entries(STR).map(([k, x]) => [x, { raw: sv(k) }])), ...Object.fromEntries(Object.entries(SER).map(([k, x]) => [x, { taint: k }])) });
    run("none", fObs, (I, st) => one(() => ({}), I, st), type);
    // metadata
    const M = P + "metadata";
    const num = (k) => S("n:" + k, { label: k, ty: { kind: "number", nullable: false }, taint: [k] });
    run("metadata:object", fObs, (I, st) => one((I, st) => ({ metadata: L.mkObj(I, st, "md", { a: C("text"), b: ov("mb"), c: num("mc"), d: NULL, e: UNDEF, f: FALSE, g: C(0) }) }), I, st), { ...type, [M + ".a"]: { raw: C("text") }, [M + ".b"]: { taint: "mb" }, [M + ".c"]: { taint: "mc", num: true }, [M + ".f"]: { raw: C("false") }, [M + ".g"]: { raw: C("0") } });
    run("metadata:list", fObs, (I, st) => one((I, st) => ({ metadata: L.mkArr(I, st, "md", [ov("m")]) }), I, st), { ...type, [M]: { taint: "m" } });
    run("metadata:string", fObs, (I, st) => one(() => ({ metadata: C("text") }), I, st), { ...type, [M]: { raw: C("text") } });
    run("metadata:number", fObs, (I, st) => one(() => ({ metadata: num("m") }), I, st), { ...type, [M]: { taint: "m", num: true } });
    run("metadata:null", fObs, (I, st) => one(() => ({ metadata: NULL }), I, st), type);
    // known values: other JSON kinds, unusual keys, values that look alike
    const { konst } = require("./_common.js");
    const known = (name, md, keys) => run("metadata:known:" + name, fObs, (I, st) => one((I, st) => ({ metadata: konst(I, st, "kmd", md) }), I, st), { ...type, ...Object.fromEntries(Object.entries(keys).map(([k, v]) => [k, { raw: C(v) }])) });
    known("keys", { "a b": "1", "x.y": "2", "Ünï-✓": "3", 0: "4", [M]: "5", [M + ".q"]: "6", constructor: "7", type: "8", input: "9" }, { [M + ".a b"]: "1", [M + ".x.y"]: "2", [M + ".Ünï-✓"]: "3", [M + ".0"]: "4", [`${M}.${M}`]: "5", [`${M}.${M}.q`]: "6", [M + ".constructor"]: "7", [M + ".type"]: "8", [M + ".input"]: "9" });
    known("values", { t: "  x ", j: '{"a":1}', n: "null", o: { p: { q: [1, null, "r"] } }, l: [], e: {}, i: -1.5, b: true }, { [M + ".t"]: "  x ", [M + ".j"]: '{"a":1}', [M + ".n"]: "null", [M + ".o"]: '{"p":{"q":[1,null,"r"]}}', [M + ".l"]: "[]", [M + ".e"]: "{}", [M + ".i"]: "-1.5", [M + ".b"]: "true" });
    known("empty", {}, {});
    for (const [vn, x] of Object.entries({ nested: { a: [1, { b: null }], c: "d" }, list: ["a", 1, null, [true]], text: "  x ", json: '{"a":1}', negative: -0.5, yes: true }))
      for (const [k, key] of Object.entries(SER)) run(`${k}:known:${vn}`, fObs, (I, st) => one((I, st) => ({ [k]: konst(I, st, "kv", x) }), I, st), { ...type, [key]: { raw: C(typeof x === "string" ? x : JSON.stringify(x)) } });
    // prompt
    const pr = (I, st, fb) => ({ prompt: L.mkObj(I, st, "pr", { name: sv("pn"), version: num("pv"), ...(fb === undefined ? {} : { isFallback: fb }) }) });
    const PN = { [P + "prompt.name"]: { raw: sv("pn") }, [P + "prompt.version"]: { raw: num("pv") } };
    run("prompt:real", fObs, (I, st) => one((I, st) => pr(I, st, FALSE), I, st), { ...type, ...PN });
    run("prompt:unmarked", fObs, (I, st) => one((I, st) => pr(I, st, undefined), I, st), { ...type, ...PN });
    run("prompt:fallback", fObs, (I, st) => one((I, st) => pr(I, st, TRUE), I, st), type, Object.keys(PN));
    run("prompt:null", fObs, (I, st) => one(() => ({ prompt: NULL }), I, st), type);
    // trace
    const T = "langfuse.trace.";
    run("trace:values", fTr, (I, st) => [L.mkObj(I, st, "in", { input: ov("ti"), output: sv("to") })], { [T + "input"]: { taint: "ti" }, [T + "output"]: { raw: sv("to") } });
    run("trace:null", fTr, (I, st) => [L.mkObj(I, st, "in", { input: NULL })], {});
    run("trace:empty", fTr, () => [], {});
  },
};
