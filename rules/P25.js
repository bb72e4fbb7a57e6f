"use strict";
const { L, V, prop, where, deepTaint, canon } = require("./_common.js");
const { mkTracing, TYPES, keysOf, calls, HISTORIES } = require("./_tracing.js");
const { S, C, UNDEF, TRUE, FALSE, single } = V;
module.exports = {
  id: "P25",
  title: "observe() records arguments and results exactly as its capture options say",
  rule: "For every combination of captureInput/captureOutput (on, off, default), observation type, number of arguments and way the function finishes: captured arguments are the observation's input and the result (or the error, on failure) its output; with capture off no argument, respectively no result, reaches any attribute, span name or log; nothing is swapped",
  assumptions: ["the error's message is not part of the captured output", "values that cannot be serialized are recorded as a constant placeholder"],
  min: 30,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const fnNode = L.findFunction(p, "tracing", "observe");
    const tri = [undefined, true, false];
    for (const ci of tri)
      for (const co of tri)
        for (const t of ["span", "generation", "tool"])
          for (const shape of ["one", "two", "none", "zero", "empty", "false"]) {
            if (t !== "span" && (shape !== "one" || ci === undefined || co === undefined)) continue;
            if (["zero", "empty", "false"].includes(shape) && (co !== undefined)) continue;
            const tag = `${t}:in=${ci}:out=${co}:${shape}`;
            const inOn = ci !== false, outOn = co !== false;
            const a = (i) => S("a" + i, { label: "a" + i, ty: { kind: "string", nullable: false }, taint: ["arg" + i] });
            const args = shape === "one" ? [a(0)] : shape === "two" ? [a(0), a(1)] : shape === "none" ? [] : [C(shape === "zero" ? 0 : shape === "empty" ? "" : false)];
            const bad = (v, st, W, what) => {
              const ts = new Set(deepTaint(st, v).map((x) => x.t));
              if (!inOn) R.ob(tag + ":input-off", !ts.has("arg0") && !ts.has("arg1"), `an argument reaches ${what} although input capture is off`, W);
              if (!outOn) R.ob(tag + ":output-off", !ts.has("result"), `the result reaches ${what} although output capture is off`, W);
              return ts;
            };
            const X = mkTracing(p, R, {
              onLog(info) {
                for (const v of info.args) bad(v, info.st, where(info.interp, info), "the log");
              },
              onStart(info) {
                for (const v of info.args) bad(v, info.st, where(info.interp, info), "the span's start");
              },
              onAttrs(info) {
                const st = info.st, W = where(info.interp, info);
                bad(info.args[0], st, W, "an attribute");
                const ks = keysOf(st, info.args[0]);
                if (!R.ob(tag + ":attrs", ks, "attributes of the observation are not definite", W)) return;
                for (const [k, v] of ks) {
                  const ts = V.taintOf(v);
                  if (ts.some((x) => /^arg/.test(x))) R.ob(tag + ":input-key", k === E.OBSERVATION_INPUT, `an argument is recorded as ${k}`, W);
                  if (ts.includes("result")) R.ob(tag + ":output-key", k === E.OBSERVATION_OUTPUT, `the result is recorded as ${k}`, W);
                  if (ts.includes("error")) R.ob(tag + ":error-key", k === E.OBSERVATION_STATUS_MESSAGE || (k === E.OBSERVATION_OUTPUT && outOn), `the error is recorded as ${k}`, W);
                }
                const inp = ks.get(E.OBSERVATION_INPUT);
                if (inp) {
                  const ts = V.taintOf(inp);
                  st.setFact("input", shape === "two" ? ts.includes("arg0") && ts.includes("arg1") : shape === "one" ? inp === args[0] : V.isConst(inp) ? String(V.constOf(inp)) : "?");
                }
                const out = ks.get(E.OBSERVATION_OUTPUT);
                if (out) st.setFact("output", V.taintOf(out).includes("result") ? "result" : V.taintOf(out).includes("error") ? "error" : V.isConst(out) ? "placeholder" : "?");
              },
            });
            const o = L.mkObj(X.I, X.st, "opts", { asType: C(t), name: L.symStr("nm"), ...(ci !== undefined ? { captureInput: C(ci) } : {}), ...(co !== undefined ? { captureOutput: C(co) } : {}) });
            let n = 0;
            const done = (st) => {
              n++;
              const f = st.fact("input");
              if (!inOn || shape === "none") R.ob(tag + ":no-input", f === undefined, "an input is recorded although there is none to capture");
              else if (shape === "one" || shape === "two") R.ob(tag + ":input", f === true, "the arguments are not recorded as input");
              else R.ob(tag + ":falsy-input", f === { zero: "0", empty: "", false: "false" }[shape], `a falsy argument is not recorded as input (${f})`);
              const err = st.fact("mode") === "throw" || st.fact("settled") === "rejected";
              const out = st.fact("output");
              if (!outOn) R.ob(tag + ":no-output", out === undefined, "an output is recorded although output capture is off");
              else R.ob(tag + (err ? ":error-output" : ":output"), out === (err ? "error" : "result") || out === "placeholder" || (!err && st.fact("mode") === "sync" && out === undefined && nullRes(st)) || (!err && st.fact("mode") === "async" && out === undefined && nullVal(st)), "the outcome is not recorded as output");
            };
            const nullRes = (st) => X.I.nullish(single(S("res")), st) === true;
            const nullVal = (st) => X.I.nullish(single(S("val")), st) === true;
            for (const w of L.callFunction(X.I, X.st, fnNode, [X.fn, o], "obs")) {
              if (w.k !== "ret") continue;
              for (const q of X.I.call(w.st, w.v, UNDEF, args, null, L.root, "callw", null)) {
                if (q.st.fact("mode") !== "async") done(q.st);
                else if (q.k === "ret") for (const b of X.I.awaitVal(q.st, q.v, null, L.root)) done(b.st);
              }
            }
            R.entry(tag);
            R.ob(tag + ":reached", n >= 4, "not all ways the function can finish reach the caller");
          }
    // known values, one call after another, nested and overlapping: each observation has its own call's input and output
    const text = (x) => (x === undefined || x === null ? undefined : typeof x === "string" ? x : JSON.stringify(x));
    const VALUES = {
      values: [[["x", "y"]], [{ a: [1, null] }], ["a", undefined], [undefined, "b"], [null], [undefined], ["", ""], [[]], ["  padded  "], [0, false, null], ["{\"not\":\"parsed\"}"], ["1", "2", "3", "4", "5"]].map((args, i) => ({ args, how: i % 2 ? "resolve" : "value", v: [["r"], "", null, { deep: { er: [true] } }, false, 0, undefined, "  padded  ", [], {}, "7", [null]][i] })),
    };
    for (const [hn, list] of Object.entries({ ...HISTORIES, ...VALUES }))
      for (const opts of [{}, { captureInput: false }, { captureOutput: false }, { captureInput: true, captureOutput: true, asType: "generation" }]) {
        if (hn !== "one-after-another" && (opts.captureInput === false || opts.captureOutput === false)) continue;
        const tag = `observe:${hn}:${JSON.stringify(opts)}`;
        calls(p, R, tag, {
          api: "observe", list, opts,
          check({ i, c, bad, attrs }) {
            const t = `${tag}:call${i + 1}`;
            const want = opts.captureInput === false ? undefined : text(c.args.length > 1 ? c.args : c.args[0]);
            R.ob(t + ":input", attrs[E.OBSERVATION_INPUT] === want, `the input recorded for the arguments ${canon(c.args)} is ${attrs[E.OBSERVATION_INPUT]}`);
            if (!bad) R.ob(t + ":output", attrs[E.OBSERVATION_OUTPUT] === (opts.captureOutput === false ? undefined : text(c.v)), `the output recorded for the result ${canon(c.v)} is ${attrs[E.OBSERVATION_OUTPUT]}`);
            else R.ob(t + ":error-output", opts.captureOutput === false ? attrs[E.OBSERVATION_OUTPUT] === undefined : attrs[E.OBSERVATION_OUTPUT] !== undefined, opts.captureOutput === false ? "the error is recorded as output although output capture is off" : "the error is not recorded as output");
          },
        });
      }
  },
};
