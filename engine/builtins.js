"use strict";
// Abstract models of the JavaScript standard library (only what the analysed code can reach).
const V = require("./values.js");
const { mkVal, constAtom, C, symAtom, S, topAtom, TOP, objAtom, O, biAtom, BI, F, boundAtom, strVal, union, opSym, taintOf, UNDEF, NULL, TRUE, FALSE, BOOL, single, isConst, constOf } = V;

const STR = { kind: "string", nullable: false };
const NUM = { kind: "number", nullable: false };
const BOOLT = { kind: "boolean", nullable: false };
const OBJT = { kind: "object", nullable: false };

const newObj = () => ({ t: "obj", cls: null, props: new Map(), abs: [], spreads: [], getters: null, open: false });
const newArr = (elems, isIter) => ({ t: "arr", elems: elems || [], sum: null, props: new Map(), ...(isIter ? { isIter } : {}) });
const sumOf = (r) => (r.elems ? (r.elems.length ? union(...r.elems.map((e) => e.v)) : null) : r.sum);
const unionOpt = (a, b) => (a && b ? union(a, b) : a || b);
const ret = (v, st) => [{ k: "ret", v, st }];
const allConst = (vs) => vs.every((v) => v && isConst(v));

function isArrayAtom(I, st, a) {
  if (a.k === "obj") {
    const r = st.rec(a);
    return r ? r.t === "arr" : null;
  }
  if (a.k === "sym") {
    const rf = st.refine.get(a.key);
    if (rf && rf.arr !== undefined) return rf.arr;
    if (I.nullish(a, st) === true) return false;
    if (a.ty && a.ty.kind === "array") return I.nullish(a, st) === false ? true : null;
    const t = I.typeofAtom(a, st);
    if (t && t !== "object") return false;
    // correlation with an earlier Array.isArray test
    const q = st.refine.get("s:isArray(" + a.key + ")");
    if (q && q.t !== undefined) return q.t;
    return null;
  }
  if (a.k === "top") return null;
  return false;
}

// property of a builtin namespace/global
function biProp(I, st, a, name, full, ast) {
  const n = a.name;
  const parts = n.split(".");
  if (n === "globalThis" || n === "window" || n === "global" || n === "self") {
    if (I.opts.globals && name in I.opts.globals) return I.opts.globals[name] ? BI(name) : UNDEF;
    if (["process", "console", "crypto", "fetch", "setTimeout", "clearTimeout", "btoa", "atob", "Buffer", "JSON", "Object", "Array", "Promise", "Math", "Date", "Error"].includes(name)) return mkVal([biAtom(name), ...(name === "process" || name === "crypto" || name === "btoa" || name === "atob" || name === "Buffer" ? [constAtom(undefined)] : [])]);
    const g = st.heap.get(a.key);
    if (g && g.props && g.props.has(name)) return g.props.get(name);
    if (I.opts.freshGlobals && name.startsWith("@@")) return UNDEF;
    return S("global." + name, { label: "global." + name });
  }
  if (n === "process" && name === "env") return S("process.env", { label: "process.env", ty: OBJT });
  if (n === "Number") {
    const c = { MAX_SAFE_INTEGER: Number.MAX_SAFE_INTEGER, MIN_SAFE_INTEGER: Number.MIN_SAFE_INTEGER, MAX_VALUE: Number.MAX_VALUE, EPSILON: Number.EPSILON, POSITIVE_INFINITY: Infinity };
    if (c[name] !== undefined) return C(c[name]);
  }
  if (["call", "apply", "bind"].includes(name) && (n.includes("#") || n.includes("."))) return BI("Function#" + name);
  const pr = /^(\w+)\.prototype$/.exec(n);
  if (pr) return BI(pr[1] + "#" + name);
  return BI(full);
}

// invoke callback for a list of elements; returns list of {st, results:[{v,e}]}
function eachElem(I, st, list, cb, thisV, frame, site, mkArgs, ast) {
  const thrown = [];
  if (list.elems) {
    let cur = [{ st, res: [] }];
    list.elems.forEach((e, i) => {
      const next = [];
      for (const c of cur) {
        if (e.m) next.push({ st: c.st.clone(), res: c.res.concat([null]) });
        for (const o of I.call(c.st, cb, UNDEF, mkArgs(e.v, i), ast, frame, `${site}e${Math.min(i, 12)}`, null)) {
          if (o.k === "ret") next.push({ st: o.st, res: c.res.concat([o.v]) });
          else thrown.push(o);
        }
      }
      cur = next.length > I.opts.K ? mergeC(I, next) : next;
    });
    return { cur, thrown };
  }
  // unknown number of iterations: fixpoint over the callback
  let acc = [{ st: st.clone(), res: [] }];
  let frontier = [st];
  const results = [];
  for (let it = 0; it < 5 && frontier.length; it++) {
    const nx = [];
    for (const s of frontier) {
      const a = single(list.sum);
      if (a && a.k === "sym") {
        for (const k of [...s.refine.keys()]) if (k.includes(a.key)) s.refine.delete(k);
        s.heap.delete(a.key);
      }
      for (const o of I.call(s.clone(), cb, UNDEF, mkArgs(list.sum, null), ast, frame, `${site}e`, null)) {
        if (o.k === "ret") {
          results.push(o.v);
          if (!acc.some((x) => leq(o.st, x.st))) nx.push(o.st);
        } else thrown.push(o);
      }
    }
    let red = I.reduceStates(nx, 4);
    if (it >= 2) {
      // widen
      red = red.map((s) => {
        const same = acc.find((x) => x.st.partKey() === s.partKey());
        return same ? mergeStatesLazy(same.st, s) : s;
      });
    }
    for (const s of red) acc.push({ st: s.clone(), res: [] });
    frontier = red;
  }
  const states = I.reduceStates(acc.map((x) => x.st), 4);
  return { cur: states.map((s) => ({ st: s, res: null })), sum: results.length ? union(...results) : null, thrown };
}
function leq(a, b) {
  const { eqState } = require("./interp.js");
  return eqState(a, b);
}
function mergeStatesLazy(a, b) {
  return require("./interp.js").mergeStates(a, b);
}
function mergeC(I, list) {
  const g = new Map();
  for (const c of list) {
    const k = c.st.partKey();
    if (!g.has(k)) g.set(k, c);
    else {
      const o = g.get(k);
      g.set(k, { st: mergeStatesLazy(o.st, c.st), res: o.res.map((v, i) => (v && c.res[i] ? union(v, c.res[i]) : v || c.res[i])) });
    }
  }
  return [...g.values()];
}

function arrOf(I, st, v, frame, site) {
  return I.listOf(st, v, frame, { i: site });
}
function listToRec(l) {
  return l.elems ? newArr(l.elems.slice()) : { ...newArr(), elems: null, sum: l.sum };
}

function call(I, st, name, thisV, args, ast, frame, site, info) {
  const mk = (rec, tag = "b") => I.alloc(st, `${tag}:${frame ? frame.id : ""}:${site}`, rec);
  const a0 = args[0] || UNDEF;
  const a1 = args[1] || UNDEF;

  if (name.startsWith("$resolve:") || name.startsWith("$reject:")) {
    const id = name.slice(name.indexOf(":") + 1);
    const at = objAtom(id);
    const r = st.rec(at);
    if (r && r.s === "pending" || (r && r.s === "ext")) {
      I.setProm(st, at, name.startsWith("$resolve:") ? { s: "resolved", v: a0 } : { s: "rejected", v: a0 });
    }
    return ret(UNDEF, st);
  }
  const hash = name.indexOf("#");
  if (hash > 0) {
    const cls = name.slice(0, hash);
    const m = name.slice(hash + 1);
    switch (cls) {
      case "String":
        return strMethod(I, st, m, thisV, args, ast, frame, site, mk);
      case "Number":
      case "Boolean":
        if (isConst(thisV) && allConst(args) && typeof constOf(thisV)[m] === "function") return ret(C(constOf(thisV)[m](...args.map(constOf))), st);
        return ret(opSym("num." + m, [thisV, ...args], STR), st);
      case "RegExp":
        if ((m === "test" || m === "exec") && isConst(a0) && rxOf(thisV)) {
          const re = rxOf(thisV), key = "rx:" + single(thisV).key;
          if (re.global || re.sticky) {
            const li = st.heap.get(key) || C(0);
            if (isConst(li)) re.lastIndex = constOf(li);
            else return ret(m === "test" ? BOOL : opSym("re.exec", [thisV, a0, li], { kind: "array", nullable: true }), st);
          }
          const r = re.exec(String(constOf(a0)));
          if (re.global || re.sticky) st.heap.set(key, C(re.lastIndex));
          return ret(m === "test" ? C(!!r) : r ? mk(matchRec(r)) : NULL, st);
        }
        if (m === "test") return ret(opSym("re.test", [thisV, a0], BOOLT), st);
        if (m === "exec") return ret(opSym("re.exec", [thisV, a0], { kind: "array", nullable: true }), st);
        return ret(opSym("re." + m, [thisV, ...args]), st);
      case "Function": {
        if (m === "call") return I.call(st, thisV, a0, Object.assign(args.slice(1), { open: args.open, openVal: args.openVal }), ast, frame, site, info.name);
        if (m === "apply") {
          const l = args[1] ? I.listOf(st, args[1], frame, { i: site }) : { elems: [] };
          const as = l.elems && !l.elems.some((e) => e.m) ? l.elems.map((e) => e.v) : Object.assign([], { open: true, openVal: l.sum || sumOf(l), spreadOf: args[1] });
          return I.call(st, thisV, a0, as, ast, frame, site, info.name);
        }
        if (m === "bind") {
          return ret(
            mkVal(thisV.atoms.map((t) => (t.k === "fn" ? V.fnAtom(t.node, t.scope, t.thisv || a0, (t.bargs || []).concat(args.slice(1)).length ? (t.bargs || []).concat(args.slice(1)) : undefined) : t.k === "const" ? t : boundAtom(t, a0, args.slice(1))))),
            st,
          );
        }
        return null;
      }
      case "Array":
        return arrMethod(I, st, m, thisV, args, ast, frame, site, mk);
      case "Map":
      case "Set":
        return mapMethod(I, st, cls, m, thisV, args, ast, frame, site, mk);
      case "Promise": {
        if (m === "then") return ret(I.then(st, thisV, fnOrNull(a0), fnOrNull(a1), null, ast, frame, site), st);
        if (m === "catch") return ret(I.then(st, thisV, null, fnOrNull(a0), null, ast, frame, site), st);
        if (m === "finally") return ret(I.then(st, thisV, null, null, fnOrNull(a0), ast, frame, site), st);
        return null;
      }
      case "Object":
        if (m === "hasOwnProperty") return I.binOp(st, "in", a0, thisV, ast, frame);
        return ret(opSym("obj." + m, [thisV, ...args], STR), st);
      case "Gen":
        return ret(TOP, st);
    }
    return null;
  }
  if (/^Object\.(keys|values|entries|getOwnPropertyNames|fromEntries)$/.test(name) && a0 && a0.atoms.some((a) => a.k === "const" && (a.v === undefined || a.v === null))) {
    const rest = mkVal(a0.atoms.filter((a) => !(a.k === "const" && (a.v === undefined || a.v === null))));
    const thrown = { k: "throw", v: S("err:nullish:" + name, { label: "TypeError: " + name + " of a nullish value", isError: true, ty: OBJT }), st };
    if (!rest.atoms.length) return [thrown];
    const st2 = st.clone();
    return [thrown, ...(call(I, st2, name, thisV, [rest, ...args.slice(1)], ast, frame, site, info) || [{ k: "ret", v: TOP, st: st2 }])];
  }
  switch (name) {
    // --- Object ---
    case "Object.keys":
    case "Object.getOwnPropertyNames": {
      const k = I.keysOf(st, a0);
      return ret(mk(k.elems ? newArr(k.elems.map((e) => ({ v: e.v, m: e.m }))) : { ...newArr(), elems: null, sum: k.sum }), st);
    }
    case "Object.values": {
      const k = I.keysOf(st, a0);
      return ret(mk(k.elems ? newArr(k.elems.map((e) => ({ v: e.val, m: e.m }))) : { ...newArr(), elems: null, sum: k.valSum }), st);
    }
    case "Object.entries": {
      const k = I.keysOf(st, a0);
      if (k.elems) {
        const els = k.elems.map((e, i) => ({ v: I.alloc(st, `ent:${frame.id}:${site}:${i}`, newArr([{ v: e.v, m: false }, { v: e.val, m: false }])), m: e.m }));
        return ret(mk(newArr(els)), st);
      }
      const pair = I.alloc(st, `ent:${frame.id}:${site}`, newArr([{ v: k.sum, m: false }, { v: k.valSum, m: false }]));
      const rec = { ...newArr(), elems: null, sum: pair };
      if (k.known) {
        // known keys plus an unknown remainder: keep the known entries visible in the summary
        const vs = [pair];
        for (const [kk, vv] of k.known.props) vs.push(I.alloc(st, `ent:${frame.id}:${site}:${kk}`, newArr([{ v: C(kk), m: false }, { v: vv, m: false }])));
        rec.sum = union(...vs);
      }
      return ret(mk(rec), st);
    }
    case "Object.fromEntries": {
      const l = I.listOf(st, a0, frame, { i: site });
      const rec = newObj();
      const ov = mk(rec);
      if (l.elems && !l.open) {
        for (const e of l.elems) {
          const pr = I.listOf(st, e.v, frame, { i: site });
          if (pr.elems && pr.elems.length >= 2) {
            const v = e.m ? union(pr.elems[1].v, UNDEF) : pr.elems[1].v;
            I.setProp(st, ov, pr.elems[0].v, v, ast, frame, { init: true });
          } else st.setRec(ov.atoms[0], { ...st.rec(ov.atoms[0]), open: true });
        }
      } else {
        const r = { ...rec, open: true, label: "fromEntries" };
        st.setRec(ov.atoms[0], r);
        const sums = l.elems ? l.elems.map((e) => e.v) : [l.sum];
        for (const s of sums) for (const at of s.atoms) {
          const pr = I.listOf(st, mkVal([at]), frame, { i: site });
          if (pr.elems && pr.elems.length >= 2) I.setProp(st, ov, pr.elems[0].v, union(pr.elems[1].v, UNDEF), ast, frame, { init: true });
        }
      }
      return ret(ov, st);
    }
    case "Object.assign": {
      const t = single(a0);
      if (t && t.k === "obj") for (const s of args.slice(1)) I.spreadInto(st, t, s, ast);
      else if (t && t.k === "sym") {
        for (const s of args.slice(1)) {
          const sa = single(s);
          const sr = sa && sa.k === "obj" && st.rec(sa);
          if (sr && sr.t === "obj") for (const [k, v] of sr.props) I.setProp(st, a0, C(k), v, ast, frame, { init: true });
        }
      }
      return ret(a0, st);
    }
    case "Object.freeze":
    case "Object.seal":
    case "Object.create":
      return ret(name === "Object.create" ? mk({ ...newObj(), open: true }) : a0, st);
    case "Object.is":
      return I.binOp(st, "===", a0, a1, ast, frame);
    case "Object.hasOwn":
      return I.binOp(st, "in", a1, a0, ast, frame);
    case "Object.defineProperty": {
      const d = args[2] && single(args[2]) && st.rec(single(args[2]));
      const dv = d && d.props && d.props.get("value");
      if (dv) return I.setProp(st, a0, a1, dv, ast, frame, { init: true }).map((o) => (o.k === "ret" ? { ...o, v: a0 } : o));
      return ret(a0, st);
    }
    case "Object.setPrototypeOf": {
      const x = single(a0), pr = a1 && single(a1), r = x && x.k === "obj" && st.rec(x);
      if (r && r.t === "obj" && pr && pr.clsNode) st.heap.set(x.key, { ...r, cls: pr.clsNode });
      return ret(a0, st);
    }
    case "Object.defineProperties":
      return ret(a0, st);
    case "Object.getPrototypeOf":
      return ret(
        union(
          ...a0.atoms.map((x) => {
            const r = x.k === "obj" && st.rec(x);
            if (!r || r.open || r.overlay) return opSym("proto", [mkVal([x])]);
            if (r.nullProto) return NULL;
            if (r.t === "obj") return BI(r.cls ? "proto:" + (r.cls.name ? r.cls.name.text : "?") : r.ext ? r.ext + ".prototype" : "Object.prototype");
            return BI({ arr: "Array", map: "Map", set: "Set", promise: "Promise" }[r.t] + ".prototype");
          }),
        ),
        st,
      );
    case "Object":
      return ret(a0, st);
    // --- Array ---
    case "Array.isArray": {
      let t = false, f = false;
      for (const x of a0.atoms) {
        const r = isArrayAtom(I, st, x);
        if (r !== false) t = true;
        if (r !== true) f = true;
      }
      return ret(t && f ? opSym("isArray", [a0], BOOLT) : C(t), st);
    }
    case "Array.from": {
      const ra = single(a0);
      const rr = ra && ra.k === "obj" && st.rec(ra);
      let l;
      if (rr && rr.t === "obj" && !rr.cls) {
        const len = rr.props.get("length");
        l = len && isConst(len) && constOf(len) <= 12 ? { elems: Array.from({ length: constOf(len) }, () => ({ v: UNDEF, m: false })) } : { sum: UNDEF };
      } else l = I.listOf(st, a0, frame, { i: site });
      if (args[1]) {
        const { cur, thrown, sum } = eachElem(I, st, l, args[1], UNDEF, frame, site, (v, i) => [v, i === null ? S("num#", { ty: NUM }) : C(i)], ast);
        return cur.map((c) => ({ k: "ret", v: I.alloc(c.st, `b:${frame.id}:${site}`, l.elems ? newArr(c.res.filter((x) => x).map((v) => ({ v, m: false }))) : { ...newArr(), elems: null, sum }), st: c.st })).concat(thrown);
      }
      return ret(mk(listToRec(l)), st);
    }
    case "Array.of":
      return ret(mk(newArr(args.map((v) => ({ v, m: false })))), st);
    case "Array":
      return construct(I, st, "Array", args, `b:${frame.id}:${site}`, ast, frame, site);
    // --- JSON ---
    case "JSON.stringify": {
      const outs = [];
      const noReplacer = !args[1] || args[1] === UNDEF || args[1] === C(null);
      const simple = noReplacer && (!args[2] || isConst(args[2])) && !args.open;
      const indent = args[2] && isConst(args[2]) ? constOf(args[2]) : undefined;
      if (simple && isConst(a0) && typeof constOf(a0) !== "function") return ret(C(JSON.stringify(constOf(a0), null, indent)), st);
      if (simple) {
        // a fully known plain structure has a known text
        const UNKNOWN = {};
        const seen = new Set();
        const plain = (v) => {
          if (isConst(v)) return constOf(v);
          const a = single(v);
          const r = a && a.k === "obj" ? st.rec(a) : null;
          if (!r || seen.has(a.key)) throw UNKNOWN;
          seen.add(a.key);
          let out;
          if (r.t === "arr" && r.elems && !r.sum && !r.open && !r.elems.some((e) => e.m)) out = r.elems.map((e) => plain(e.v));
          else if (r.t === "obj" && !r.cls && !r.ext && !r.open && !r.overlay && !r.getters && !(r.abs && r.abs.length) && !(r.spreads && r.spreads.length) && !r.props.has("toJSON")) {
            out = {};
            for (const [k, w] of r.props) out[k] = plain(w);
          } else throw UNKNOWN;
          seen.delete(a.key);
          return out;
        };
        try {
          const j = plain(a0);
          if (typeof j !== "function") return ret(C(JSON.stringify(j, null, indent)), st);
        } catch (e) {
          if (e !== UNKNOWN) throw e;
        }
      }
      const definitelySafe = a0.atoms.every((x) => x.k === "const" || x.k === "str" || (x.k === "sym" && ["string", "number", "boolean"].includes(I.typeofAtom(x, st))) || safeObj(I, st, x, 0));
      if (!definitelySafe && I.opts.stringifyThrows !== false) outs.push({ k: "throw", v: S("err:JSON.stringify", { label: "JSON.stringify error", ty: OBJT, isError: true }), st: st.clone() });
      const nullable = a0.atoms.some((x) => (x.k === "const" && x.v === undefined) || x.k === "fn" || ((x.k === "sym" || x.k === "top") && I.nullish(x, st) !== false && !(x.ty && ["string", "number", "boolean", "array", "object"].includes(x.ty.kind) && !x.ty.nullable)));
      outs.push({ k: "ret", v: opSym("json", [deepKey(I, st, a0)], { kind: "string", nullable: nullable ? true : false }), st });
      return outs;
    }
    case "JSON.parse": {
      if (isConst(a0) && typeof constOf(a0) === "string" && args.length === 1) {
        let j;
        let bad = false;
        try {
          j = JSON.parse(constOf(a0));
        } catch {
          bad = true;
        }
        if (bad) return [{ k: "throw", v: S("err:JSON.parse", { label: "JSON.parse error", ty: OBJT, isError: true }), st }];
        let n = 0;
        const build = (x) => {
          if (x === null || typeof x !== "object") return C(x);
          const id = `j:${frame.id}:${site}:${n++}`;
          if (Array.isArray(x)) return I.alloc(st, id, newArr(x.map((y) => ({ v: build(y), m: false }))));
          const rec = newObj();
          for (const k of Object.keys(x)) rec.props.set(k, build(x[k]));
          return I.alloc(st, id, rec);
        };
        return ret(build(j), st);
      }
      const outs = [{ k: "ret", v: opSym("parse", [a0]), st }];
      if (I.opts.parseThrows !== false) outs.push({ k: "throw", v: S("err:JSON.parse", { label: "JSON.parse error", ty: OBJT, isError: true }), st: st.clone() });
      return outs;
    }
    // --- Promise ---
    case "Promise.resolve":
      if (a0.atoms.length && a0.atoms.every((x) => I.isPromiseAtom(st, x))) return ret(a0, st);
      if (single(a0) && single(a0).k === "sym" && (single(a0).user || single(a0).ty?.kind === "promise")) {
        const x = single(a0);
        return ret(I.mkPromise(st, `pr:${frame.id}:${site}`, "then", { parent: a0, onF: null, onR: null, frame, site }), st);
      }
      return ret(I.mkPromise(st, `pr:${frame.id}:${site}`, "resolved", { v: a0 }), st);
    case "Promise.reject":
      return ret(I.mkPromise(st, `pr:${frame.id}:${site}`, "rejected", { v: a0 }), st);
    case "Promise.all":
    case "Promise.allSettled":
    case "Promise.race":
    case "Promise.any": {
      const l = I.listOf(st, a0, frame, { i: site });
      const snap = I.alloc(st, `pl:${frame.id}:${site}`, listToRec(l));
      for (const e of l.elems || [{ v: l.sum }]) for (const x of e.v.atoms) if (I.isPromiseAtom(st, x)) I.setProm(st, x, { handled: true });
      return ret(I.mkPromise(st, `pa:${frame.id}:${site}`, name === "Promise.all" ? "all" : name === "Promise.allSettled" ? "settled" : "race", { list: snap }), st);
    }
    // --- conversions ---
    case "String":
      if (isConst(a0)) return ret(C(String(constOf(a0))), st);
      return ret(a0.atoms.length === 1 && (a0.atoms[0].k === "str" || I.typeofAtom(a0.atoms[0], st) === "string") ? a0 : opSym("String", [a0], STR), st);
    case "Number":
    case "parseInt":
    case "parseFloat":
    case "Number.parseInt":
    case "Number.parseFloat":
      if (isConst(a0) && typeof constOf(a0) !== "object") return ret(C(name.includes("parseInt") ? parseInt(constOf(a0), 10) : Number(constOf(a0))), st);
      return ret(opSym("Number", [a0], NUM), st);
    case "Boolean": {
      let t = false, f = false;
      for (const x of a0.atoms) {
        const r = I.truthy(x, st);
        if (r !== false) t = true;
        if (r !== true) f = true;
      }
      return ret(t && f ? opSym("!", [opSym("!", [a0], BOOLT)], BOOLT) : C(t), st);
    }
    case "Number.isInteger":
    case "Number.isFinite":
    case "Number.isNaN":
    case "isNaN":
    case "isFinite":
    case "Number.isSafeInteger":
      if (isConst(a0)) {
        const fnm = name.startsWith("Number.") ? Number[name.slice(7)] : globalThis[name];
        return ret(C(fnm(constOf(a0))), st);
      }
      return ret(opSym(name, [a0], BOOLT), st);
    case "encodeURIComponent":
      if (isConst(a0)) return ret(C(encodeURIComponent(String(constOf(a0)))), st);
      return ret(opSym("encodeURIComponent", [a0], STR), st);
    case "decodeURIComponent":
    case "encodeURI":
    case "btoa":
    case "atob": {
      if (isConst(a0) && name !== "btoa" && name !== "atob") {
        try {
          return ret(C(globalThis[name](String(constOf(a0)))), st);
        } catch (e) {
          return [{ k: "throw", v: S("err:" + name, { label: name + " error", isError: true }), st }];
        }
      }
      const outs = ret(opSym(name, [a0], STR), st);
      if (["decodeURIComponent", "atob", "btoa"].includes(name)) outs.push({ k: "throw", v: S("err:" + name, { label: name + " error", isError: true }), st: st.clone() });
      return outs;
    }
    case "Symbol":
    case "Symbol.for":
      return ret(mkVal([V.mkAtom("sy:" + (isConst(a0) ? constOf(a0) : a0.key), { k: "bi", name: "Symbol(" + (isConst(a0) ? constOf(a0) : "?") + ")" })]), st);
    case "setTimeout":
    case "setInterval":
    case "setImmediate":
    case "queueMicrotask": {
      const tm = objAtom("$timers");
      const r = st.rec(tm) || newArr();
      const h = I.fresh(st, `timer@${frame.id}:${site}`, { label: "timer", ty: OBJT });
      st.setRec(tm, { ...r, elems: r.elems ? r.elems.filter((e) => e.v !== a0).concat([{ v: a0, m: false, tid: h.key }]) : null, sum: unionOpt(r.sum, a0) });
      return ret(h, st);
    }
    case "clearTimeout":
    case "clearInterval": {
      const tm = objAtom("$timers");
      const r = st.rec(tm);
      if (r && r.elems && a0 && a0.atoms.length === 1) st.setRec(tm, { ...r, elems: r.elems.filter((e) => e.tid !== a0.key) });
      return ret(UNDEF, st);
    }
    case "Date.now":
    case "performance.now":
      return ret(S(`now@${frame.id}:${site}`, { label: "Date.now()", ty: NUM }), st);
    case "Math.random":
      return ret(S(`rand@${frame.id}:${site}`, { label: "random", ty: NUM }), st);
    case "Reflect.get":
      return I.getElem(st, a0, a1, ast, frame, { i: site });
    case "Reflect.has":
      return I.binOp(st, "in", a1, a0, ast, frame);
    case "Reflect.apply": {
      const l = I.listOf(st, args[2] || UNDEF, frame, { i: site });
      const as = l.elems && !l.elems.some((e) => e.m) ? l.elems.map((e) => e.v) : Object.assign([], { open: true, openVal: l.sum, spreadOf: args[2] });
      return I.call(st, a0, a1, as, ast, frame, site, null);
    }
    case "fetch": {
      const rec = I.promRec("ext", { token: `fetch@${frame.id}:${site}`, mayReject: true, label: "fetch", okTy: OBJT, fetchArgs: args });
      return ret(I.alloc(st, `fetch:${frame.id}:${site}`, rec), st);
    }
    case "structuredClone":
      return ret(opSym("clone", [a0]), st);
    case "Date":
      return ret(S(`date@${frame.id}:${site}`, { ty: STR }), st);
    case "Error":
    case "TypeError":
    case "RangeError":
      return construct(I, st, name, args, `n:${frame.id}:${site}`, ast, frame, site);
  }
  if (/^Math\./.test(name)) {
    if (allConst(args) && !args.open) return ret(C(Math[name.slice(5)](...args.map(constOf))), st);
    return ret(opSym(name, args, NUM), st);
  }
  if (/^console\./.test(name)) return ret(UNDEF, st);
  if (/^(crypto|performance|navigator|process|Buffer|Intl|Atomics|URL|URLSearchParams|AbortSignal|Response|Headers)\b/.test(name)) return null;
  return null;
}
function safeObj(I, st, x, d) {
  if (x.k !== "obj" || d > 4) return false;
  const r = st.rec(x);
  if (!r) return false;
  if (r.t === "obj") return !r.spreads.length && !r.open && !r.cls && !r.ext && [...r.props.values(), ...r.abs.map((e) => e.v)].every((v) => v.atoms.every((y) => y.k === "const" || y.k === "str" || (y.k === "sym" && ["string", "number", "boolean"].includes(I.typeofAtom(y, st))) || safeObj(I, st, y, d + 1)));
  if (r.t === "arr") return [sumOf(r)].every((v) => !v || v.atoms.every((y) => y.k === "const" || y.k === "str" || (y.k === "sym" && ["string", "number", "boolean"].includes(I.typeofAtom(y, st))) || safeObj(I, st, y, d + 1)));
  return false;
}
// a value that stands for the deep content of v (so that json(v) reflects provenance of the members)
function deepKey(I, st, v, d = 0) {
  const a = single(v);
  if (!a || a.k !== "obj" || d > 3) return v;
  const r = st.rec(a);
  if (!r) return v;
  const parts = [];
  if (r.t === "obj") {
    for (const [k, x] of r.props) parts.push(C(k), deepKey(I, st, x, d + 1));
    for (const e of r.abs) parts.push(mkVal([e.atom]), deepKey(I, st, e.v, d + 1));
    for (const s of r.spreads) parts.push(s);
    return opSym("obj", [a.key + "", ...parts]);
  }
  if (r.t === "arr") {
    if (r.elems) for (const e of r.elems) parts.push(deepKey(I, st, e.v, d + 1));
    else if (r.sum) parts.push(deepKey(I, st, r.sum, d + 1));
    return opSym("arr", [a.key + "", ...parts]);
  }
  return v;
}
function fnOrNull(v) {
  const l = v.atoms.filter((a) => a.k !== "const");
  return l.length ? mkVal(l) : null;
}

// the result of a successful match
function matchRec(r) {
  const rec = newArr([...r].map((x) => ({ v: C(x), m: false })));
  if (r.index !== undefined) rec.props.set("index", C(r.index));
  if (r.input !== undefined) rec.props.set("input", C(r.input));
  return rec;
}
// the regular expression a literal denotes
function rxOf(v) {
  const t = v && single(v);
  if (!t || t.k !== "regex") return null;
  const mm = /^\/(.*)\/([a-z]*)$/s.exec(t.src);
  try {
    return new RegExp(mm[1], mm[2]);
  } catch (_) {
    return null;
  }
}

function strMethod(I, st, m, thisV, args, ast, frame, site, mk) {
  const a0 = args[0] || UNDEF;
  const pure = (ty) => ret(opSym("str." + m, [thisV, ...args], ty), st);
  if (isConst(thisV) && args.every((x) => isConst(x) || (single(x) && single(x).k === "regex")) && !["split", "match", "matchAll"].includes(m)) {
    try {
      const as = args.map((x) => {
        const a = single(x);
        if (a.k === "regex") {
          const mm = /^\/(.*)\/([a-z]*)$/s.exec(a.src);
          return new RegExp(mm[1], mm[2]);
        }
        return a.v;
      });
      const r = constOf(thisV)[m](...as);
      if (typeof r !== "object") return ret(C(r), st);
    } catch (_) {}
  }
  // distribute over unions of constants
  if (thisV.atoms.length > 1 && thisV.atoms.length <= 20 && thisV.atoms.every((a) => a.k === "const" && typeof a.v === "string")) {
    const vs = [];
    for (const a of thisV.atoms) for (const o of strMethod(I, st, m, mkVal([a]), args, ast, frame, site, mk)) vs.push(o.v);
    if (vs.every((v) => v)) return ret(union(...vs), st);
  }
  switch (m) {
    case "startsWith": {
      const t = single(thisV);
      if (t && t.k === "str" && isConst(a0) && args.length === 1) {
        const p0 = typeof t.parts[0] === "string" ? t.parts[0] : "";
        const c = String(constOf(a0));
        if (p0.startsWith(c)) return ret(TRUE, st);
        if (p0.length && !c.startsWith(p0.slice(0, c.length))) return ret(FALSE, st);
      }
      if (thisV.atoms.length > 1) {
        const vs = thisV.atoms.map((x) => strMethod(I, st, m, mkVal([x]), args, ast, frame, site, mk)[0].v);
        return ret(union(...vs), st);
      }
      return pure(BOOLT);
    }
    case "endsWith": {
      const t = single(thisV);
      if (t && t.k === "str" && isConst(a0)) {
        const pl = t.parts[t.parts.length - 1];
        const c = String(constOf(a0));
        if (typeof pl === "string" && pl.endsWith(c)) return ret(TRUE, st);
        if (typeof pl === "string" && pl.length >= c.length) return ret(FALSE, st);
      }
      return pure(BOOLT);
    }
    case "includes": {
      const t = single(thisV);
      if (t && t.k === "str" && isConst(a0) && t.parts.some((p) => typeof p === "string" && p.includes(String(constOf(a0))))) return ret(TRUE, st);
      return pure(BOOLT);
    }
    case "slice":
    case "substring": {
      const t = single(thisV);
      if (t && t.k === "str" && args.length === 1 && isConst(a0) && typeof t.parts[0] === "string" && constOf(a0) >= 0 && constOf(a0) <= t.parts[0].length) return ret(strVal([t.parts[0].slice(constOf(a0)), ...t.parts.slice(1)]), st);
      return pure(STR);
    }
    case "toString":
    case "valueOf":
      return ret(thisV, st);
    case "split": {
      const v = opSym("str.split", [thisV, ...args], { kind: "array", nullable: false });
      if (isConst(thisV) && args.length && args.every((x) => isConst(x) || rxOf(x))) return ret(mk(newArr(String(constOf(thisV)).split(...args.map((x) => rxOf(x) || constOf(x))).map((x) => ({ v: C(x), m: false })))), st);
      return ret(v, st);
    }
    case "match": {
      const re = rxOf(a0);
      if (re && isConst(thisV)) {
        const r = String(constOf(thisV)).match(re);
        return ret(r ? mk(matchRec(r)) : NULL, st);
      }
      return pure({ kind: "array", nullable: true });
    }
    case "matchAll": {
      const re = rxOf(a0);
      if (re && re.global && isConst(thisV)) {
        const all = [...String(constOf(thisV)).matchAll(re)].map((r, i) => ({ v: mk(matchRec(r), "m" + i), m: false }));
        return ret(mk(newArr(all, true)), st);
      }
      return pure({ kind: "array", nullable: false });
    }
    case "concat":
      return ret(strVal([thisV, ...args]), st);
    case "replace":
    case "replaceAll": {
      const re = rxOf(a0);
      if (args[1] && args[1].atoms.every((x) => x.k === "fn") && isConst(thisV) && (re || isConst(a0))) {
        // a constant text: one call per match, in order
        const text = String(constOf(thisV));
        const ms = re ? (re.global ? [...text.matchAll(re)] : [re.exec(text)].filter(Boolean)) : text.includes(constOf(a0)) && m === "replace" ? [Object.assign([constOf(a0)], { index: text.indexOf(constOf(a0)) })] : m === "replaceAll" && constOf(a0) ? text.split(constOf(a0)).slice(0, -1).reduce((l, x) => l.concat([Object.assign([constOf(a0)], { index: (l.length ? l[l.length - 1].index + constOf(a0).length : 0) + x.length })]), []) : null;
        if (ms && ms.length <= 12) {
          let cur = [{ st, parts: [], pos: 0 }];
          const thrown = [];
          ms.forEach((mt, i) => {
            const next = [];
            for (const c of cur)
              for (const o of I.call(c.st, args[1], UNDEF, [...mt].map((x) => C(x)), ast, frame, `${site}r${i}`, null)) {
                if (o.k === "ret") next.push({ st: o.st, parts: c.parts.concat([C(text.slice(c.pos, mt.index)), I.toStr(o.st, o.v)]), pos: mt.index + mt[0].length });
                else thrown.push(o);
              }
            cur = next;
          });
          return cur.map((c) => ({ k: "ret", v: strVal(c.parts.concat([C(text.slice(c.pos))])), st: c.st })).concat(thrown);
        }
      }
      if (args[1] && args[1].atoms.some((x) => x.k === "fn")) {
        const outs = [];
        for (const o of I.call(st, args[1], UNDEF, [opSym("str.matchpart", [thisV, a0], STR)], ast, frame, site + "r", null)) outs.push(o.k === "ret" ? { ...o, v: opSym("str.replace", [thisV, a0, o.v], STR) } : o);
        return outs;
      }
      return pure(STR);
    }
    case "indexOf":
    case "lastIndexOf":
    case "charCodeAt":
    case "codePointAt":
    case "localeCompare":
    case "search":
      return pure(NUM);
    default:
      return pure(STR);
  }
}

function arrMethod(I, st, m, thisV, args, ast, frame, site, mk) {
  const a = single(thisV);
  const a0 = args[0] || UNDEF;
  const a1 = args[1] || UNDEF;
  const rec = a && a.k === "obj" ? st.rec(a) : null;
  const isArr = rec && rec.t === "arr";
  const list = I.listOf(st, thisV, frame, { i: site });
  const mkArgs = (v, i) => [v, i === null ? S("num#", { ty: NUM }) : C(i), thisV];
  const num = S("num#", { ty: NUM });
  switch (m) {
    case "push":
    case "unshift":
      if (isArr) {
        let r = rec;
        const els = args.map((v) => ({ v, m: false }));
        if (m === "unshift") r = r.elems ? { ...r, elems: els.concat(r.elems) } : { ...r, sum: unionOpt(r.sum, sumOf({ elems: els })) };
        else r = I.arrAdd(r, els);
        if (args.open) r = { ...r, elems: null, sum: unionOpt(sumOf(r), args.openVal) };
        st.setRec(a, r);
        return ret(r.elems && !r.elems.some((e) => e.m) ? C(r.elems.length) : num, st);
      }
      for (const x of thisV.atoms) {
        const r = x.k === "obj" && st.rec(x);
        if (r && r.t === "arr") st.setRec(x, { ...r, elems: null, sum: unionOpt(sumOf(r), args.length ? union(...args) : null) });
      }
      return ret(num, st);
    case "pop":
    case "shift":
      if (isArr && rec.elems && rec.elems.length && !rec.elems.some((e) => e.m)) {
        const els = rec.elems.slice();
        const e = m === "pop" ? els.pop() : els.shift();
        st.setRec(a, { ...rec, elems: els });
        return ret(e.v, st);
      }
      if (isArr && rec.elems && !rec.elems.length && !rec.sum) return ret(UNDEF, st);
      if (isArr && rec.elems && !rec.sum && rec.elems.length <= 12) {
        // the first (last) element present is the i-th, or there is none
        const els = m === "pop" ? rec.elems.slice().reverse() : rec.elems.slice();
        const outs = [];
        for (let i = 0; i < els.length; i++) {
          const rest = els.slice(i + 1);
          const s = st.clone();
          s.setRec(a, { ...rec, elems: m === "pop" ? rest.reverse() : rest });
          outs.push({ k: "ret", v: els[i].v, st: s });
          if (!els[i].m) return outs;
        }
        st.setRec(a, { ...rec, elems: [] });
        outs.push({ k: "ret", v: UNDEF, st });
        return outs;
      }
      return ret(union(list.elems ? sumOf(list) || UNDEF : list.sum, UNDEF), st);
    case "splice": {
      const from = a0, cnt = args[1];
      if (isArr && rec.elems && isConst(from) && !rec.elems.some((e) => e.m) && (!cnt || isConst(cnt))) {
        const els = rec.elems.slice();
        const rem = els.splice(constOf(from), cnt ? constOf(cnt) : els.length, ...args.slice(2).map((v) => ({ v, m: false })));
        st.setRec(a, { ...rec, elems: els });
        const rv = mk(newArr(rem));
        const q = st.rec(rv.atoms[0]);
        st.setRec(rv.atoms[0], { ...q, maxLen: cnt || null, from: a });
        return ret(rv, st);
      }
      if (isArr) {
        // unknown split: removed part and remainder both range over the contents
        const s = sumOf(rec);
        const all = isConst(from) && constOf(from) === 0 && !cnt;
        const rv = mk({ ...newArr(), elems: null, sum: s || UNDEF, maxLen: cnt || null, from: a });
        if (rec.elems && rec.elems.length && isConst(from) && constOf(from) === 0 && cnt && isConst(cnt) && constOf(cnt) >= rec.elems.length) {
          st.setRec(rv.atoms[0], { ...newArr(rec.elems), maxLen: cnt, from: a });
          st.setRec(a, { ...rec, elems: [], sum: null });
          return ret(rv, st);
        }
        st.setRec(a, all ? { ...rec, elems: [], sum: null } : { ...rec, elems: null, sum: unionOpt(s, args.length > 2 ? union(...args.slice(2)) : null) });
        return ret(rv, st);
      }
      return ret(mk({ ...newArr(), elems: null, sum: list.elems ? sumOf(list) || UNDEF : list.sum }), st);
    }
    case "slice": {
      if (list.elems && !list.elems.some((e) => e.m) && (!args[0] || isConst(a0)) && (!args[1] || isConst(a1))) return ret(mk(newArr(list.elems.slice(args[0] ? constOf(a0) : 0, args[1] ? constOf(a1) : undefined))), st);
      const rv = mk({ ...newArr(), elems: list.elems && !args.length ? list.elems.slice() : null, sum: list.elems ? sumOf(list) || UNDEF : list.sum });
      return ret(rv, st);
    }
    case "concat": {
      let r = listToRec(list);
      for (const x of args) {
        const al = x.atoms.every((y) => isArrayAtom(I, st, y) === true) ? I.listOf(st, x, frame, { i: site }) : { elems: [{ v: x, m: false }] };
        r = al.elems ? I.arrAdd(r, al.elems) : { ...r, elems: null, sum: unionOpt(sumOf(r), al.sum) };
      }
      return ret(mk(r), st);
    }
    case "reverse":
    case "sort":
    case "fill":
      if (m === "fill") return ret(mk({ ...newArr(), elems: list.elems ? list.elems.map(() => ({ v: a0, m: false })) : null, sum: list.elems ? null : a0 }), st);
      if (m === "reverse" && isArr && rec.elems) {
        st.setRec(a, { ...rec, elems: rec.elems.slice().reverse() });
        return ret(thisV, st);
      }
      if (isArr && rec.elems && rec.elems.length > 1) st.setRec(a, { ...rec, elems: null, sum: sumOf(rec) });
      return ret(thisV, st);
    case "join": {
      if (list.elems && !list.elems.some((e) => e.m)) {
        const sep = args[0] ? a0 : C(",");
        const parts = [];
        list.elems.forEach((e, i) => {
          if (i) parts.push(sep);
          parts.push(e.v);
        });
        return ret(strVal(parts), st);
      }
      return ret(opSym("join", [list.elems ? sumOf(list) : list.sum, a0], STR), st);
    }
    case "includes":
    case "indexOf": {
      if (list.elems && m === "includes") {
        let t = false, unk = false;
        for (const e of list.elems) {
          const r = I.eqVals(e.v, a0, st, false);
          if (r === true && !e.m) t = true;
          else if (r !== false) unk = true;
        }
        if (t) return ret(TRUE, st);
        if (!unk) return ret(FALSE, st);
        return ret(opSym("includes", [thisV, ...list.elems.map((e) => e.v), a0], BOOLT), st);
      }
      return ret(opSym("arr." + m, [thisV, a0], m === "includes" ? BOOLT : NUM), st);
    }
    case "forEach": {
      const { cur, thrown } = eachElem(I, st, list, a0, UNDEF, frame, site, mkArgs, ast);
      return cur.map((c) => ({ k: "ret", v: UNDEF, st: c.st })).concat(thrown);
    }
    case "map":
    case "flatMap": {
      const { cur, thrown, sum } = eachElem(I, st, list, a0, UNDEF, frame, site, mkArgs, ast);
      return cur
        .map((c) => {
          let r;
          if (list.elems) {
            r = newArr(c.res.map((v, i) => (v ? { v, m: false } : null)).filter((x) => x));
            if (m === "flatMap") {
              let q = newArr();
              for (const e of r.elems) {
                const l = I.listOf(c.st, e.v, frame, { i: site });
                const isA = e.v.atoms.every((y) => isArrayAtom(I, c.st, y) === true);
                q = !isA ? I.arrAdd(q, [e]) : l.elems ? I.arrAdd(q, l.elems) : { ...q, elems: null, sum: unionOpt(sumOf(q), l.sum) };
              }
              r = q;
            }
          } else {
            let s2 = sum || UNDEF;
            if (m === "flatMap" && sum) {
              const l = I.listOf(c.st, sum, frame, { i: site });
              s2 = l.elems ? sumOf(l) || UNDEF : l.sum;
            }
            r = { ...newArr(), elems: null, sum: s2 };
          }
          return { k: "ret", v: I.alloc(c.st, `b:${frame.id}:${site}`, r), st: c.st };
        })
        .concat(thrown);
    }
    case "filter":
    case "find":
    case "findIndex":
    case "some":
    case "every":
    case "findLast": {
      if (a0.atoms.length === 1 && a0.atoms[0].k === "bi" && a0.atoms[0].name === "Boolean" && m === "filter") {
        if (list.elems) {
          const els = [];
          for (const e of list.elems) {
            const keep = e.v.atoms.filter((x) => I.truthy(x, st) !== false);
            if (keep.length) els.push({ v: mkVal(keep), m: e.m || e.v.atoms.some((x) => I.truthy(x, st) !== true) });
          }
          return ret(mk(newArr(els)), st);
        }
        return ret(mk({ ...newArr(), elems: null, sum: list.sum }), st);
      }
      const { cur, thrown, sum } = eachElem(I, st, list, a0, UNDEF, frame, site, mkArgs, ast);
      return cur
        .map((c) => {
          let v;
          const tr = (x) => {
            let t = false, f = false;
            for (const y of x.atoms) {
              const r = I.truthy(y, c.st);
              if (r !== false) t = true;
              if (r !== true) f = true;
            }
            return t && f ? null : t;
          };
          if (list.elems) {
            const rs = c.res.map((x) => (x ? tr(x) : false));
            if (m === "filter") {
              const els = [];
              list.elems.forEach((e, i) => {
                if (rs[i] === false) return;
                els.push({ v: e.v, m: rs[i] === null });
              });
              v = I.alloc(c.st, `b:${frame.id}:${site}`, newArr(els));
            } else if (m === "some") v = rs.some((r) => r === true) ? TRUE : rs.some((r) => r === null) ? opSym("some", [thisV, ...c.res.filter((x) => x)], BOOLT) : FALSE;
            else if (m === "every") v = rs.every((r) => r === true) ? TRUE : rs.some((r) => r === false) ? FALSE : opSym("every", [thisV, ...c.res.filter((x) => x)], BOOLT);
            else if (m === "find" || m === "findLast") {
              const vs = [];
              let def = false;
              list.elems.forEach((e, i) => {
                if (def || rs[i] === false) return;
                vs.push(e.v);
                if (rs[i] === true) def = true;
              });
              if (!def) vs.push(UNDEF);
              v = union(...vs);
            } else v = num;
          } else {
            const s2 = list.sum;
            const rv = sum ? tr(sum) : null;
            if (m === "filter") v = I.alloc(c.st, `b:${frame.id}:${site}`, rv === false ? newArr() : { ...newArr(), elems: null, sum: s2, filteredBy: sum });
            else if (m === "some" || m === "every") v = opSym(m, [thisV, sum || UNDEF], BOOLT);
            else if (m === "find" || m === "findLast") v = union(s2, UNDEF);
            else v = num;
          }
          return { k: "ret", v, st: c.st };
        })
        .concat(thrown);
    }
    case "reduce": {
      let cur = [{ st, acc: args[1] }];
      const thrown = [];
      if (list.elems) {
        list.elems.forEach((e, i) => {
          const next = [];
          for (const c of cur) {
            if (c.acc === undefined) {
              next.push({ st: c.st, acc: e.v });
              continue;
            }
            if (e.m) next.push({ st: c.st.clone(), acc: c.acc });
            for (const o of I.call(c.st, a0, UNDEF, [c.acc, e.v, C(i), thisV], ast, frame, `${site}r${Math.min(i, 12)}`, null)) {
              if (o.k === "ret") next.push({ st: o.st, acc: o.v });
              else thrown.push(o);
            }
          }
          cur = next.slice(0, 32);
        });
        return cur.map((c) => ({ k: "ret", v: c.acc || UNDEF, st: c.st })).concat(thrown);
      }
      const outs = [];
      let acc = args[1] || list.sum;
      let s = st;
      for (let it = 0; it < 3; it++) {
        const os = I.call(s.clone(), a0, UNDEF, [acc, list.sum, num, thisV], ast, frame, `${site}r`, null);
        const r = os.filter((o) => o.k === "ret");
        thrown.push(...os.filter((o) => o.k === "throw"));
        if (!r.length) break;
        acc = union(acc, ...r.map((o) => o.v));
        s = r.map((o) => o.st).reduce((x, y) => mergeStatesLazy(x, y));
      }
      return [{ k: "ret", v: acc, st: s }].concat(thrown);
    }
    case "at": {
      if (list.elems && isConst(a0)) {
        const e = list.elems.at(constOf(a0));
        return ret(e ? (e.m ? union(e.v, UNDEF) : e.v) : UNDEF, st);
      }
      return ret(union(list.elems ? sumOf(list) || UNDEF : list.sum, UNDEF), st);
    }
    case "entries": {
      if (list.elems) return ret(mk(newArr(list.elems.map((e, i) => ({ v: I.alloc(st, `ae:${frame.id}:${site}:${i}`, newArr([{ v: C(i), m: false }, { v: e.v, m: false }])), m: e.m })), true)), st);
      return ret(mk({ ...newArr(), elems: null, sum: I.alloc(st, `ae:${frame.id}:${site}`, newArr([{ v: num, m: false }, { v: list.sum, m: false }])) }), st);
    }
    case "keys":
      return ret(mk({ ...newArr(), isIter: true, elems: list.elems ? list.elems.map((e, i) => ({ v: C(i), m: e.m })) : null, sum: list.elems ? null : num }), st);
    case "values": {
      const self = single(thisV), rr = self && self.k === "obj" && st.rec(self);
      if (rr && rr.isIter) return ret(thisV, st);
      return ret(mk({ ...listToRec(list), isIter: true }), st);
    }
    case "next": {
      const self = single(thisV), rr = self && self.k === "obj" && st.rec(self);
      const res = (s, v, done) => {
        const o = newObj();
        o.props.set("value", v);
        o.props.set("done", done);
        return I.alloc(s, `nx:${frame.id}:${site}`, o);
      };
      if (!rr || !rr.elems) return ret(res(st, union((rr && rr.sum) || TOP, UNDEF), BOOL), st);
      if (!rr.elems.length) return ret(res(st, UNDEF, TRUE), st);
      const outs = [];
      if (rr.elems[0].m) {
        const s2 = st.clone();
        s2.setRec(self, { ...rr, elems: rr.elems.slice(1) });
        outs.push(...arrMethod(I, s2, m, thisV, args, ast, frame, site, mk));
      }
      st.setRec(self, { ...rr, elems: rr.elems.slice(1) });
      outs.push({ k: "ret", v: res(st, rr.elems[0].v, FALSE), st });
      return outs;
    }
    case "flat": {
      let q = newArr();
      for (const e of list.elems || [{ v: list.sum, m: true }]) {
        if (e.v.atoms.every((y) => isArrayAtom(I, st, y) === false)) {
          q = list.elems ? I.arrAdd(q, [e]) : { ...q, elems: null, sum: unionOpt(sumOf(q), e.v) };
          continue;
        }
        const l = I.listOf(st, e.v, frame, { i: site });
        q = l.elems ? I.arrAdd(q, l.elems) : { ...q, elems: null, sum: unionOpt(sumOf(q), l.sum) };
      }
      return ret(mk(q), st);
    }
    case "toString":
      return ret(opSym("arr.toString", [thisV], STR), st);
    default:
      return ret(TOP, st);
  }
}

function mapMethod(I, st, cls, m, thisV, args, ast, frame, site, mk) {
  const a = single(thisV);
  const r = a && a.k === "obj" && st.rec(a);
  const a0 = args[0] || UNDEF;
  const a1 = args[1] || UNDEF;
  if (!r) return null;
  const isSet = r.t === "set";
  const keyId = a0.key;
  const keyDef = single(a0); // definite key
  const mayAlias = (e) => e.k.key === keyId || I.eqVals(e.k, a0, st, false) !== false;
  switch (m) {
    case "set":
    case "add": {
      const entries = new Map(r.entries);
      const v = isSet ? TRUE : a1;
      entries.set(keyId, { k: a0, v, m: false });
      // other symbolic keys that may be the same key
      if (!isSet) for (const [k, e] of r.entries) if (k !== keyId && mayAlias(e)) entries.set(k, { ...e, v: union(e.v, v) });
      if (entries.size > 24) {
        st.setRec(a, { ...r, entries: new Map([...entries].slice(-24)), open: true });
      } else st.setRec(a, { ...r, entries });
      return ret(thisV, st);
    }
    case "get": {
      const vs = [];
      const e = r.entries.get(keyId);
      if (e) {
        vs.push(e.v);
        if (e.m) vs.push(UNDEF);
      }
      for (const [k, f] of r.entries) if (k !== keyId && mayAlias(f)) vs.push(f.v);
      if (!e) vs.push(UNDEF);
      if (r.open) vs.push(S(`${a.id}.get(${keyId})`, { label: (r.label || "map") + ".get()", ty: { kind: r.valKind || "any", nullable: true } }));
      return ret(union(...vs), st);
    }
    case "has": {
      const e = r.entries.get(keyId);
      if (e && !e.m && keyDef) return ret(TRUE, st);
      const al = [...r.entries.values()].some((f) => mayAlias(f));
      if (!al && !r.open) return ret(FALSE, st);
      return ret(opSym("has", [thisV, a0, [...r.entries.keys()].join("/")], BOOLT), st);
    }
    case "delete": {
      const entries = new Map(r.entries);
      const had = entries.has(keyId);
      if (keyDef) entries.delete(keyId);
      else if (had) entries.set(keyId, { ...entries.get(keyId), m: true });
      for (const [k, f] of r.entries) if (k !== keyId && mayAlias(f)) entries.set(k, { ...f, m: true });
      st.setRec(a, { ...r, entries });
      return ret(BOOL, st);
    }
    case "clear":
      st.setRec(a, { ...r, entries: new Map(), open: false });
      return ret(UNDEF, st);
    case "forEach": {
      const list = { elems: [...r.entries.values()].map((e) => ({ v: e.k, m: e.m, val: isSet ? e.k : e.v })) };
      const map = new Map(list.elems.map((e) => [e.v, e.val]));
      const { cur, thrown } = eachElem(I, st, list, a0, UNDEF, frame, site, (k) => [map.get(k) || TOP, k, thisV], ast);
      return cur.map((c) => ({ k: "ret", v: UNDEF, st: c.st })).concat(thrown);
    }
    case "keys":
    case "values": {
      const vs = [...r.entries.values()].map((e) => ({ v: m === "keys" || isSet ? e.k : e.v, m: e.m }));
      if (r.open) return ret(mk({ ...newArr(), elems: null, sum: union(S(`${a.id}.${m}[*]`, { label: (r.label || "map") + "." + m, ty: m === "keys" ? STR : undefined }), ...vs.map((e) => e.v)) }), st);
      return ret(mk(newArr(vs, true)), st);
    }
    case "entries": {
      const l = I.listOf(st, thisV, frame, { i: site });
      return ret(mk({ ...listToRec(l), isIter: true }), st);
    }
  }
  return ret(TOP, st);
}

function construct(I, st, name, args, id, ast, frame, site) {
  const a0 = args[0] || UNDEF;
  switch (name) {
    case "Map":
    case "Set":
    case "WeakMap":
    case "WeakSet": {
      const isSet = /Set/.test(name);
      const rec = { t: isSet ? "set" : "map", entries: new Map(), open: false };
      const v = I.alloc(st, id, rec);
      if (args.length && !(isConst(a0) && constOf(a0) == null)) {
        const l = I.listOf(st, a0, frame, { i: site });
        if (l.elems)
          for (const e of l.elems) {
            if (isSet) rec.entries.set(e.v.key, { k: e.v, v: TRUE, m: e.m });
            else {
              const pr = I.listOf(st, e.v, frame, { i: site });
              if (pr.elems && pr.elems.length >= 2) rec.entries.set(pr.elems[0].v.key, { k: pr.elems[0].v, v: pr.elems[1].v, m: e.m });
              else rec.open = true;
            }
          }
        else {
          rec.open = true;
          if (isSet) rec.entries.set(l.sum.key, { k: l.sum, v: TRUE, m: true });
          else {
            for (const at of l.sum.atoms) {
              const pr = I.listOf(st, mkVal([at]), frame, { i: site });
              if (pr.elems && pr.elems.length >= 2) rec.entries.set(pr.elems[0].v.key, { k: pr.elems[0].v, v: pr.elems[1].v, m: true });
            }
          }
        }
      }
      return ret(v, st);
    }
    case "Array": {
      if (args.length === 1 && isConst(a0) && typeof constOf(a0) === "number" && constOf(a0) <= 12) return ret(I.alloc(st, id, newArr(Array.from({ length: constOf(a0) }, () => ({ v: UNDEF, m: false })))), st);
      if (args.length <= 1) return ret(I.alloc(st, id, { ...newArr(), elems: null, sum: UNDEF }), st);
      return ret(I.alloc(st, id, newArr(args.map((v) => ({ v, m: false })))), st);
    }
    case "Object":
      return ret(I.alloc(st, id, newObj()), st);
    case "Promise": {
      const pid = id;
      const pv = I.mkPromise(st, pid, "ext", { token: pid, mayReject: false, label: "new Promise" });
      const rid = pv.atoms[0].id;
      const outs = [];
      for (const o of I.call(st, a0, UNDEF, [BI("$resolve:" + rid), BI("$reject:" + rid)], ast, frame, site + "x", null)) {
        if (o.k === "throw") {
          I.setProm(o.st, pv.atoms[0], { s: "rejected", v: o.v });
          outs.push({ k: "ret", v: pv, st: o.st });
        } else outs.push({ k: "ret", v: pv, st: o.st });
      }
      return outs;
    }
    case "RegExp": {
      const t = single(a0);
      const src = t && t.k === "regex" ? t.src.replace(/^\/(.*)\/[a-z]*$/s, "$1") : isConst(a0) ? String(constOf(a0)) : null;
      const fl = args[1] && isConst(args[1]) ? String(constOf(args[1]) ?? "") : args[1] ? null : t && t.k === "regex" ? /[a-z]*$/.exec(t.src)[0] : "";
      if (src === null || fl === null) return ret(S(`new RegExp(${args.map((x) => x.key).join()})`, { label: "RegExp", ty: OBJT }), st);
      const key = `re:/${src}/${fl}${/[gy]/.test(fl) ? `@${frame.id}:${site}` : ""}`;
      st.heap.delete("rx:" + key);
      return ret(mkVal([V.mkAtom(key, { k: "regex", src: `/${src}/${fl}` })]), st);
    }
    case "Date": {
      const v = I.alloc(st, id, { ...newObj(), ext: "Date", ctorArgs: args });
      return ret(v, st);
    }
    case "Proxy": {
      const v = I.alloc(st, id, { ...newObj(), ext: "Proxy", ctorArgs: args, proxyOf: a0, handler: args[1] });
      return ret(v, st);
    }
  }
  if (/Error$/.test(name)) {
    const rec = { ...newObj(), ext: name };
    if (args[0]) rec.props.set("message", a0);
    rec.props.set("name", C(name));
    rec.props.set("stack", S("stack", { ty: STR }));
    if (args[1]) {
      const x = single(args[1]);
      const r = x && x.k === "obj" && st.rec(x);
      if (r && r.props.has("cause")) rec.props.set("cause", r.props.get("cause"));
    }
    return ret(I.alloc(st, id, rec), st);
  }
  if (name === "URL") {
    const v = I.alloc(st, id, { ...newObj(), ext: "URL", ctorArgs: args, open: false });
    return [{ k: "ret", v, st }, { k: "throw", v: S("err:URL", { label: "Invalid URL", isError: true }), st: st.clone() }];
  }
  return null;
}

module.exports = { call, construct, biProp, isArrayAtom, deepKey };
