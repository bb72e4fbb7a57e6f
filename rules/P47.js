"use strict";
const { L, V, prop, where } = require("./_common.js");
const { S, C, UNDEF, NULL, single, isConst, constOf } = V;
const OBJ = { kind: "object", nullable: false };
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
const hex = (bs) => bs.map((b) => b.toString(16).padStart(2, "0")).join("");
// digests and random bytes are unknown; these byte patterns (small, large, zero bytes in every position) stand for them
const PATTERNS = [Array.from({ length: 32 }, (_, i) => i), Array.from({ length: 32 }, (_, i) => 255 - i), Array.from({ length: 32 }, (_, i) => (i % 2 ? 0 : 160 + i))];
module.exports = {
  id: "P47",
  title: "seeded ids are a pure function of the seed, other ids are random",
  rule: "For every seed: createTraceId(seed) is the first 32 lowercase hexadecimal digits of the SHA-256 of the seed's UTF-8 bytes, createExperimentItemId(input) the first 16 of that of the serialised input, nothing else (time, randomness, earlier calls) flows into them, and the digest is the only thing they depend on; createTraceId without a seed and createExperimentId are all 16 and 8 fresh random bytes in hexadecimal; ids of the same seed are equal whatever was created in between",
  assumptions: ["SHA-256, TextEncoder and getRandomValues are the platform's", "bytes are represented by three patterns covering every position with small, large and zero bytes"],
  min: 60,
  run(p, R) {
    const fn = (pkg, n) => {
      const d = L.declOf(L.needExport(p, pkg, n));
      return d.initializer || d;
    };
    const mk = (tag, pat) => {
      const X = {};
      const I = (X.I = R.use(
        L.mkInterp(p, {
          debugEnabled: false,
          opts: { K: 16, maxElems: 80, stringifyThrows: false },
          onNew(info) {
            const n = info.callee.name || info.label || "";
            if (n === "TextEncoder") return S("TextEncoder", { label: "TextEncoder", ty: OBJ });
            if (n === "Uint8Array") {
              const a = info.args[0];
              if (a && isConst(a) && typeof constOf(a) === "number") return L.mkArr(I, info.st, `bytes:${info.frame.id}:${info.site}`, Array.from({ length: constOf(a) }, () => C(0)));
              const r = a && single(a) && info.st.rec(single(a));
              if (r && r.elems) return L.mkArr(I, info.st, `bytes:${info.frame.id}:${info.site}`, r.elems.map((e) => e.v));
            }
            return null;
          },
          onCall(info) {
            const { callee, args, st } = info;
            const nm = callee.k === "bi" ? callee.name : "";
            if (info.name === "encode" && lab(info.thisV) === "TextEncoder") return [{ k: "ret", v: S("utf8(" + args[0].key + ")", { label: `utf8(${lab(args[0])})`, ty: OBJ, utf8Of: args[0] }), st }];
            if (info.name === "digest" || /digest$/.test(nm)) {
              st.setFact("digests", (st.fact("digests") || 0) + 1);
              const d = args[1] && single(args[1]);
              R.ob(tag + ":sha256", args[0] && isConst(args[0]) && /^sha-256$/i.test(constOf(args[0])), `the digest is ${lab(args[0])}`, where(I, info));
              R.ob(tag + ":bytes", d && d.utf8Of && X.seed && d.utf8Of.key === X.seed.key, `the digest is taken of ${lab(args[1])}`, where(I, info));
              const v = L.mkArr(I, st, `digest:${info.frame.id}:${info.site}`, pat.map((b) => C(b)));
              return [{ k: "ret", v: I.alloc(st, `dp:${info.frame.id}:${info.site}`, I.resolvedRec(v)), st }];
            }
            if (info.name === "getRandomValues" || /getRandomValues$/.test(nm)) {
              st.setFact("random", (st.fact("random") || 0) + 1);
              const a = single(args[0]), r = a && st.rec(a);
              if (!R.ob(tag + ":random-array", r && r.elems, "random bytes are not written to a known array", where(I, info))) return null;
              st.setRec(a, { ...r, elems: r.elems.map((e, i) => ({ ...e, v: C(pat[i]) })) });
              return [{ k: "ret", v: args[0], st }];
            }
            if (/^Math\.random$|^Date\.now$|performance\.now$|randomUUID$/.test(nm)) st.setFact("impure", nm);
            if (nm === "JSON.stringify") return [{ k: "ret", v: S("json(" + args.filter((a, i) => !i || (a !== UNDEF && a !== NULL)).map((a) => a.key).join() + ")", { label: `json(${args.map(lab).join(", ")})`, ty: { kind: "string", nullable: false } }), st }];
            return null;
          },
        }),
      ));
      X.st = new L.State();
      return X;
    };
    const run = (tag, X, pkg, name, args, st, check) => {
      let n = 0;
      const ends = [];
      for (const o of L.callFunction(X.I, st, fn(pkg, name), args, name)) {
        if (!R.ob(tag + ":no-throw", o.k === "ret", `${name} throws`)) continue;
        for (const q of X.I.awaitVal(o.st, o.v, null, L.root)) {
          n++;
          if (R.ob(tag + ":fulfils", q.k === "ret", `${name} rejects`)) check(q);
          ends.push(q.st);
        }
      }
      R.ob(tag + ":reached", n > 0, "never settles");
      R.entry(`${name} ${tag}`);
      return ends;
    };
    PATTERNS.forEach((pat, pi) => {
      const seeded = (tag, X, len) => (q) => {
        R.ob(tag + ":id", q.v === C(hex(pat).slice(0, len)), `the id is ${lab(q.v)} instead of ${hex(pat).slice(0, len)}`);
        R.ob(tag + ":one-digest", q.st.fact("digests") === 1, `${q.st.fact("digests") || 0} digests are taken`);
        R.ob(tag + ":pure", !q.st.fact("random") && !q.st.fact("impure"), `the id depends on ${q.st.fact("impure") || "random bytes"}`);
      };
      const seeds = { symbolic: L.symStr("seed"), "0": C("0"), space: C(" "), long: C("x".repeat(50)) };
      for (const [n, s] of Object.entries(seeds)) {
        const tag = `trace id, seed ${n}, ${pi}`;
        const X = mk(tag, pat);
        if (!isConst(s)) X.I.addRefine(X.st, single(s), { t: true });
        X.seed = s;
        // twice, with a random id in between
        for (const st of run(tag, X, "tracing", "createTraceId", [s], X.st, seeded(tag, X, 32))) {
          st.delFact("digests");
          for (const s2 of run(tag + ", random", X, "tracing", "createTraceId", [], st, () => {})) {
            s2.delFact("random");
            s2.delFact("digests");
            run(tag + ", again", X, "tracing", "createTraceId", [s], s2, seeded(tag + ", again", X, 32));
          }
        }
      }
      // another seed after the first has its own id
      for (const [a, b] of [["aa", "bb"], ["ab", "ba"], ["a", "a "], ["a", "A"]]) {
        const tag = `trace id, seed ${a} then ${b}, ${pi}`;
        const X = mk(tag, pat);
        X.seed = C(a);
        for (const st of run(tag + ", first", X, "tracing", "createTraceId", [C(a)], X.st, seeded(tag + ", first", X, 32))) {
          st.delFact("digests");
          X.seed = C(b);
          run(tag, X, "tracing", "createTraceId", [C(b)], st, seeded(tag, X, 32));
          X.seed = C(a);
        }
        const Y = mk(tag + ", items", pat);
        Y.seed = C(a);
        for (const st of run(tag + ", item", Y, "core", "createExperimentItemId", [C(a)], Y.st, seeded(tag + ", item", Y, 16))) {
          st.delFact("digests");
          Y.seed = C(b);
          run(tag + ", next item", Y, "core", "createExperimentItemId", [C(b)], st, seeded(tag + ", next item", Y, 16));
          Y.seed = C(a);
        }
      }
      for (const [n, a] of Object.entries({ none: [], undefined: [UNDEF], empty: [C("")] })) {
        const tag = `trace id, ${n}, ${pi}`;
        const X = mk(tag, pat);
        run(tag, X, "tracing", "createTraceId", a, X.st, (q) => {
          R.ob(tag + ":id", q.v === C(hex(pat.slice(0, 16))), `the id is ${lab(q.v)}`);
          R.ob(tag + ":random", q.st.fact("random") === 1 && !q.st.fact("digests"), "the id is not 16 fresh random bytes");
        });
      }
      {
        const tag = `experiment id, ${pi}`;
        const X = mk(tag, pat);
        run(tag, X, "core", "createExperimentId", [], X.st, (q) => {
          R.ob(tag + ":id", q.v === C(hex(pat.slice(0, 8))), `the id is ${lab(q.v)}`);
          R.ob(tag + ":random", q.st.fact("random") === 1, "the id is not 8 fresh random bytes");
        });
      }
      const inputs = { string: (I, st) => [L.symStr("text"), (v) => v], "empty string": () => [C(""), (v) => v], number: () => [C(7), (v) => S("json(" + v.key + ")")], zero: () => [C(0), (v) => S("json(" + v.key + ")")], object: (I, st) => [L.mkObj(I, st, "inp", { a: C(1) }), (v) => S("json(" + v.key + ")")], false: () => [C(false), (v) => S("json(" + v.key + ")")] };
      for (const [n, f] of Object.entries(inputs)) {
        const tag = `item id, ${n}, ${pi}`;
        const X = mk(tag, pat);
        const [v, ser] = f(X.I, X.st);
        const want = ser(v).key;
        X.seed = { key: want };
        run(tag, X, "core", "createExperimentItemId", [v], X.st, seeded(tag, X, 16));
      }
    });
  },
};
