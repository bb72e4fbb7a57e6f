"use strict";
// Flow-, context- and exception-sensitive abstract interpreter over the CFGs of lower.js.
// Domain: bounded disjunctions of (typestate facts, refinements, abstract heap); joins at merge points,
// widening at loop heads. No concrete execution and no solver: unknown inputs stay unknown atoms.
const { ts } = require("./project.js");
const { Lowerer, isFunctionLike, ownerOf, skip } = require("./lower.js");
const V = require("./values.js");
const { mkVal, constAtom, C, symAtom, S, topAtom, TOP, objAtom, O, biAtom, BI, fnAtom, F, boundAtom, clsAtom, K, strVal, union, opSym, taintOf, UNDEF, NULL, TRUE, FALSE, BOOL, single, isConst, constOf, nid } = V;
const builtins = require("./builtins.js");

class BudgetError extends Error {}
let frameSeq = 0;

class State {
  constructor() {
    this.heap = new Map();
    this.facts = new Map();
    this.refine = new Map();
    this.tmp = new Map();
  }
  clone() {
    const s = new State();
    s.heap = new Map(this.heap);
    s.facts = new Map(this.facts);
    s.refine = new Map(this.refine);
    s.tmp = new Map(this.tmp);
    s.iters = this.iters;
    return s;
  }
  fact(k) {
    return this.facts.get(k);
  }
  setFact(k, v = true) {
    this.facts.set(k, v);
  }
  delFact(k) {
    this.facts.delete(k);
  }
  count(k, max = 3) {
    this.facts.set(k, Math.min(max, (this.facts.get(k) || 0) + 1));
  }
  rec(atom) {
    if (!atom) return undefined;
    return this.heap.get(atom.key);
  }
  setRec(atom, r) {
    this.heap.set(atom.key, r);
  }
  factKey() {
    if (!this.facts.size) return "";
    return [...this.facts].map(([k, v]) => k + "=" + v).sort().join(";");
  }
  // partition key: typestate facts plus the positions of the finite iterations in progress
  partKey() {
    let r = this.factKey();
    if (this.iters) for (const k of this.iters) {
      const it = this.heap.get(k);
      if (it && it.elems) r += `;${k}@${it.pos}`;
      else if (it && it.atoms && it.atoms.length === 1 && it.atoms[0].k === "const") r += `;${k}=${it.atoms[0].v}`;
    }
    return r;
  }
}

// a check has 900 s; it says UNDECIDED before that
const MAX_SECONDS = 700;

// ---- records ----
function newObj(cls) {
  return { t: "obj", cls: cls || null, props: new Map(), abs: [], spreads: [], getters: null, open: false };
}
function newArr(elems, isIter) {
  return { t: "arr", elems: elems || [], sum: null, props: new Map(), ...(isIter ? { isIter } : {}) };
}
const elemsOf = (vals) => vals.map((v) => ({ v, m: false }));

function eqRec(a, b) {
  if (a === b) return true;
  if (!a || !b || a.t !== b.t) return false;
  if (a.atoms || b.atoms) return false;
  switch (a.t) {
    case "obj": {
      if (a.cls !== b.cls || a.props.size !== b.props.size || a.abs.length !== b.abs.length || a.spreads.length !== b.spreads.length || a.open !== b.open) return false;
      for (const [k, v] of a.props) if (b.props.get(k) !== v) return false;
      for (let i = 0; i < a.abs.length; i++) if (a.abs[i].key !== b.abs[i].key || a.abs[i].v !== b.abs[i].v) return false;
      for (let i = 0; i < a.spreads.length; i++) if (a.spreads[i] !== b.spreads[i]) return false;
      return true;
    }
    case "arr":
      if ((a.elems === null) !== (b.elems === null) || a.sum !== b.sum) return false;
      if (a.elems) {
        if (a.elems.length !== b.elems.length) return false;
        for (let i = 0; i < a.elems.length; i++) if (a.elems[i].v !== b.elems[i].v || a.elems[i].m !== b.elems[i].m) return false;
      }
      return true;
    case "map":
    case "set": {
      if (a.entries.size !== b.entries.size || a.open !== b.open) return false;
      for (const [k, e] of a.entries) {
        const f = b.entries.get(k);
        if (!f || f.v !== e.v || f.m !== e.m) return false;
      }
      return true;
    }
    case "promise": {
      for (const f of ["s", "v", "parent", "onF", "onR", "fin", "list", "handled", "token"]) if (a[f] !== b[f]) return false;
      if (a.cont !== b.cont) {
        if (!a.cont || !b.cont || a.cont.n !== b.cont.n || a.cont.frame.id !== b.cont.frame.id || !eqTmp(a.cont.tmp, b.cont.tmp)) return false;
      }
      if (a.reactions.length !== b.reactions.length) return false;
      return a.reactions.every((r, i) => r === b.reactions[i]);
    }
    case "iter":
      return a.src === b.src && a.pos === b.pos && a.keys === b.keys;
    case "gen":
      return a.frame === b.frame;
  }
  return false;
}
function eqTmp(a, b) {
  if (a === b) return true;
  if (a.size !== b.size) return false;
  for (const [k, v] of a) if (b.get(k) !== v) return false;
  return true;
}
function mergeTmp(a, b) {
  const r = new Map(a);
  for (const [k, w] of b) {
    const v = r.get(k);
    r.set(k, v === undefined ? w : union(v, w));
  }
  return r;
}
function eqCell(a, b) {
  if (a === b) return true;
  if (!a || !b) return false;
  if (a.atoms || b.atoms) return false; // interned
  return eqRec(a, b);
}
function mergeRec(a, b, key, wide) {
  if (a === b) return a;
  if (a === undefined) return b;
  if (b === undefined) return a;
  if (a.atoms && b.atoms) {
    const u = union(a, b);
    if (wide && u !== a) return u.atoms.length > 4 ? mkVal([topAtom(taintOf(u).sort())]) : u;
    return u;
  }
  if (a.t !== b.t) return a.atoms ? b : a;
  switch (a.t) {
    case "obj": {
      const r = { ...newObj(a.cls || b.cls), getters: a.getters || b.getters, open: a.open || b.open, ext: a.ext || b.ext, overlay: a.overlay || b.overlay };
      for (const [k, v] of a.props) {
        const w = b.props.get(k);
        r.props.set(k, w === undefined ? (b.open || b.overlay ? v : union(v, UNDEF)) : union(v, w));
      }
      for (const [k, w] of b.props) if (!a.props.has(k)) r.props.set(k, a.open || a.overlay ? w : union(w, UNDEF));
      const m = new Map();
      for (const e of a.abs) m.set(e.key, e);
      for (const e of b.abs) m.set(e.key, m.has(e.key) ? { ...e, v: union(m.get(e.key).v, e.v) } : e);
      r.abs = [...m.values()];
      r.spreads = a.spreads.length === b.spreads.length && a.spreads.every((x, i) => x === b.spreads[i]) ? a.spreads : [...new Set([...a.spreads, ...b.spreads])];
      return r;
    }
    case "arr": {
      if (a.elems && b.elems && a.elems.length === b.elems.length) return { ...a, elems: a.elems.map((e, i) => ({ v: union(e.v, b.elems[i].v), m: e.m || b.elems[i].m })) };
      if (a.elems && b.elems && !wide) {
        // prefix relation: the longer list with the extra elements marked maybe
        const [s, l] = a.elems.length < b.elems.length ? [a, b] : [b, a];
        if (l.elems.length <= 8 && s.elems.every((e, i) => e.v === l.elems[i].v)) return { ...l, elems: l.elems.map((e, i) => (i < s.elems.length ? { v: e.v, m: e.m || s.elems[i].m } : { v: e.v, m: true })) };
      }
      return { ...a, elems: null, sum: unionOpt(sumOf(a), sumOf(b)) };
    }
    case "map":
    case "set": {
      const e = new Map();
      for (const [k, x] of a.entries) {
        const y = b.entries.get(k);
        e.set(k, y ? { k: x.k, v: union(x.v, y.v), m: x.m || y.m } : { ...x, m: true });
      }
      for (const [k, y] of b.entries) if (!a.entries.has(k)) e.set(k, { ...y, m: true });
      return { ...a, entries: e, open: a.open || b.open };
    }
    case "promise": {
      if (eqRec(a, b)) return a;
      if (a.s === "pending" && b.s === "pending" && a.cont && b.cont && a.cont.n === b.cont.n && a.cont.frame.id === b.cont.frame.id) return { ...a, cont: { ...a.cont, tmp: mergeTmp(a.cont.tmp, b.cont.tmp) }, handled: a.handled && b.handled, reactions: [...new Set([...a.reactions, ...b.reactions])] };
      const rank = { pending: 3, then: 3, all: 3, settled: 3, race: 3, ext: 2, rejected: 1, resolved: 0 };
      if (a.s === b.s && (a.s === "resolved" || a.s === "rejected")) return { ...a, v: union(a.v, b.v), handled: a.handled && b.handled };
      return rank[a.s] >= rank[b.s] ? a : b;
    }
    case "iter":
      if (a.elems && b.elems && a.pos === b.pos && a.elems.length === b.elems.length) return { ...a, elems: a.elems.map((e, i) => ({ v: union(e.v, b.elems[i].v), m: e.m || b.elems[i].m })), keys: a.keys === b.keys ? a.keys : a.keys + "|" + b.keys };
      return { ...a, elems: null, sum: unionOpt(sumOf(a), sumOf(b)) || UNDEF, pos: 0, keys: "*" };
  }
  return a;
}
const sumOf = (r) => (r.elems ? (r.elems.length ? union(...r.elems.map((e) => e.v)) : null) : r.sum);
const unionOpt = (a, b) => (a && b ? union(a, b) : a || b);

function eqState(a, b) {
  if (a.facts.size !== b.facts.size || a.heap.size !== b.heap.size || a.refine.size !== b.refine.size || a.tmp.size !== b.tmp.size) return false;
  for (const [k, v] of a.facts) if (b.facts.get(k) !== v) return false;
  for (const [k, v] of a.tmp) if (b.tmp.get(k) !== v) return false;
  for (const [k, v] of a.heap) if (!eqCell(v, b.heap.get(k))) return false;
  for (const [k, v] of a.refine) {
    const w = b.refine.get(k);
    if (!w || w.key !== v.key) return false;
  }
  return true;
}
function leqCell(a, b) {
  if (eqCell(a, b)) return true;
  if (!a || !b) return !a;
  if (a.atoms && b.atoms) {
    if (b === TOP || b.atoms.some((x) => x.k === "top")) return true;
    return a.atoms.every((x) => b.atoms.includes(x));
  }
  const m = mergeRec(b, a);
  return eqCell(m, b);
}
function leqState(a, b) {
  if (a.partKey() !== b.partKey()) return false;
  for (const [k, v] of a.heap) if (!leqCell(v, b.heap.get(k))) return false;
  for (const [k, v] of b.refine) {
    const w = a.refine.get(k);
    if (!w || w.key !== v.key) return false;
  }
  return true;
}
function mergeStates(a, b, wide) {
  const r = new State();
  r.facts = new Map(a.facts);
  r.iters = !a.iters ? b.iters : !b.iters || a.iters === b.iters ? a.iters : [...new Set([...a.iters, ...b.iters])].sort();
  for (const [k, v] of a.heap) r.heap.set(k, mergeRec(v, b.heap.get(k), k, wide));
  for (const [k, v] of b.heap) if (!a.heap.has(k)) r.heap.set(k, v);
  for (const [k, v] of a.refine) {
    const w = b.refine.get(k);
    if (w && w.key === v.key) r.refine.set(k, v);
  }
  for (const [k, v] of a.tmp) {
    const w = b.tmp.get(k);
    r.tmp.set(k, w === undefined ? v : union(v, w));
  }
  for (const [k, w] of b.tmp) if (!a.tmp.has(k)) r.tmp.set(k, w);
  return r;
}

const RF = (o) => {
  o.key = `${o.t}|${o.n}|${o.eq ? o.eq.key : ""}|${o.ne ? o.ne.map((x) => x.key).join(",") : ""}|${o.ty || ""}`;
  return o;
};

class Interp {
  constructor(project, opts = {}) {
    this.p = project;
    this.checker = project.checker;
    this.lw = project.lowerer || (project.lowerer = new Lowerer(project.checker));
    this.opts = Object.assign({ maxSteps: 4e6, K: 8, maxDepth: 60 }, opts);
    this.steps = 0;
    this.stats = { functions: new Set(), nodes: new Set(), calls: 0, extCalls: 0, unsupported: new Set(), awaits: 0, merges: 0 };
    this.frames = new Map();
    this.stack = []; // call path for reports
    this.seq = 1; // order in which async functions started to wait
    this.modFrame = { id: "mod", node: null, parent: null, thisVal: UNDEF, args: [] };
    this.violations = [];
    this.sk = project.symKeys || (project.symKeys = new Map());
    this.stub = this.opts.stub || (() => null);
  }
  symKey(sym) {
    let k = this.sk.get(sym);
    if (k === undefined) {
      k = this.sk.size;
      this.sk.set(sym, k);
    }
    return k;
  }
  violate(rule, ast, msg) {
    const loc = ast ? this.p.loc(ast) : "?";
    const path = this.stack.map((s) => s).slice(-8);
    const key = rule + loc + msg;
    if (this.violations.some((v) => v.key === key)) return;
    this.violations.push({ key, rule, loc, msg, path });
  }
  // ---- types ----
  describe(t, depth = 0) {
    if (!t) return { kind: "any", nullable: true };
    const cache = this.p.tyCache || (this.p.tyCache = new Map());
    let r = cache.get(t);
    if (r) return r;
    r = this.describe0(t, depth);
    cache.set(t, r);
    return r;
  }
  describe0(t, depth) {
    const f = t.flags;
    const TF = ts.TypeFlags;
    if (f & (TF.Any | TF.Unknown)) return { kind: "any", nullable: true };
    if (f & (TF.Undefined | TF.Null | TF.Void)) return { kind: "nullish", nullable: true };
    if (f & TF.StringLiteral || f & TF.NumberLiteral) return { kind: f & TF.StringLiteral ? "string" : "number", nullable: false, lits: [t.value] };
    if (f & TF.BooleanLiteral) return { kind: "boolean", nullable: false };
    if (f & TF.StringLike) return { kind: "string", nullable: false };
    if (f & TF.NumberLike) return { kind: "number", nullable: false };
    if (f & TF.BooleanLike) return { kind: "boolean", nullable: false };
    if (f & TF.BigIntLike) return { kind: "number", nullable: false };
    if (f & TF.ESSymbolLike) return { kind: "symbol", nullable: false };
    if (f & (TF.TypeParameter | TF.Conditional | TF.IndexedAccess | TF.Substitution)) {
      const c = this.checker.getBaseConstraintOfType(t);
      if (!c || c === t || depth > 3) return { kind: "any", nullable: true };
      return this.describe(c, depth + 1);
    }
    if (t.isUnion && t.isUnion()) {
      const ds = t.types.map((x) => this.describe(x, depth + 1));
      const nullable = ds.some((d) => d.nullable);
      const kinds = new Set(ds.filter((d) => d.kind !== "nullish").map((d) => d.kind));
      let lits = null;
      const nn = ds.filter((d) => d.kind !== "nullish");
      if (nn.length && nn.every((d) => d.lits)) lits = nn.flatMap((d) => d.lits);
      if (kinds.size === 1) return { kind: [...kinds][0], nullable, lits, cls: nn.length === 1 ? nn[0].cls : undefined };
      if (kinds.size === 0) return { kind: "nullish", nullable: true };
      const objish = ["object", "function", "array", "promise"];
      if ([...kinds].every((k) => objish.includes(k))) return { kind: "object", nullable, maybePromise: kinds.has("promise") };
      return { kind: "mixed", nullable, maybePromise: kinds.has("promise") || kinds.has("any"), kinds: [...kinds] };
    }
    if (f & TF.Object || f & TF.Intersection || f & TF.NonPrimitive) {
      const sym = t.symbol || t.aliasSymbol;
      const name = sym && sym.name;
      if (this.checker.isArrayType(t) || this.checker.isTupleType(t)) return { kind: "array", nullable: false };
      if (name === "Promise" || name === "PromiseLike" || name === "HttpResponsePromise") return { kind: "promise", nullable: false };
      if (this.checker.getSignaturesOfType(t, ts.SignatureKind.Call).length) return { kind: "function", nullable: false };
      let cls;
      if (sym && sym.valueDeclaration && ts.isClassDeclaration(sym.valueDeclaration) && this.p.pkgOf(sym.valueDeclaration.getSourceFile().fileName)) cls = sym.valueDeclaration;
      return { kind: "object", nullable: false, tname: name, cls };
    }
    if (f & TF.Never) return { kind: "any", nullable: true };
    return { kind: "any", nullable: true };
  }
  tyAt(node) {
    try {
      return this.describe(this.checker.getTypeAtLocation(node));
    } catch (_) {
      return { kind: "any", nullable: true };
    }
  }
  // ---- frames ----
  mkFrame(caller, site, node, scope, thisVal, st) {
    let base = `${caller ? caller.id : "root"}|${site}|${nid(node)}|${thisVal.key}|${scope ? scope.id : "-"}`;
    let gen = 0;
    let id;
    for (;;) {
      const k = base + "#" + gen;
      let fr = this.frames.get(k);
      if (!fr) {
        id = "F" + frameSeq++; // unique over all interpreters: atoms are interned and hold their frame
        fr = { id, gen };
        this.frames.set(k, fr);
      }
      id = fr.id;
      if (gen >= (this.opts.maxGen ? this.opts.maxGen - 1 : 2) || !st.heap.has("live:" + id)) break;
      gen++;
    }
    return { id, node, parent: scope, thisVal, args: null, depth: (caller ? caller.depth || 0 : 0) + 1, caller };
  }
  thisOf(frame) {
    let f = frame;
    while (f && f.node && ts.isArrowFunction(f.node)) f = f.parent;
    return f ? f.thisVal : UNDEF;
  }
  ownerFn(frame) {
    return frame.node;
  }
  // ---- variables ----
  cellFor(sym, frame) {
    const d = sym.valueDeclaration || (sym.declarations && sym.declarations[0]);
    if (!d) return null;
    const o = ownerOf(d);
    if (ts.isSourceFile(o)) return { mod: true, key: "v:mod:" + this.symKey(sym), d };
    let f = frame;
    while (f && f.node !== o) f = f.parent;
    if (!f) return { missing: true, d };
    return { key: `v:${f.id}:${this.symKey(sym)}`, d };
  }
  // a platform global; opts.globals says which exist (true) or do not (false), others are assumed to exist
  loadGlobal(st, name, ast) {
    const g = this.opts.globals;
    if (g && g[name] === false) {
      if (ast && ast.parent && ts.isTypeOfExpression(ast.parent)) return [{ k: "ret", v: UNDEF, st }];
      return [{ k: "throw", v: S("ReferenceError:" + name, { label: `ReferenceError: ${name} is not defined`, ty: { kind: "object", nullable: false }, isError: true, refErr: name }), st }];
    }
    return [{ k: "ret", v: BI(name), st }];
  }
  loadSym(st, sym, frame, ast, name) {
    if (!sym) return this.loadGlobal(st, name || "?", ast);
    if (this.opts.globals && this.opts.globals[sym.name] === false && !(sym.declarations || []).some((d) => this.p.pkgOf(d.getSourceFile().fileName))) return this.loadGlobal(st, sym.name, ast);
    if (sym.flags & ts.SymbolFlags.Alias) {
      try {
        const a = this.checker.getAliasedSymbol(sym);
        if (a && a.flags !== 0 && a.escapedName !== "unknown") {
          const nm = sym.name;
          sym = a;
          if (sym.flags & ts.SymbolFlags.Module && sym.declarations && sym.declarations.some(ts.isSourceFile)) {
            return [{ k: "ret", v: this.nsVal(sym), st }];
          }
        } else return [{ k: "ret", v: S("ext:" + sym.name, { label: "ext:" + sym.name }), st }];
      } catch (_) {
        return [{ k: "ret", v: S("ext:" + sym.name, { label: "ext:" + sym.name }), st }];
      }
    }
    const d = sym.valueDeclaration || (sym.declarations && sym.declarations[0]);
    if (!d) return this.loadGlobal(st, name || sym.name, ast);
    const fname = d.getSourceFile().fileName;
    if (!this.p.pkgOf(fname) && !this.opts.extraSource?.(fname)) {
      if (ts.isModuleDeclaration(d) && /\/typescript\/lib\/lib\./.test(fname)) return [{ k: "ret", v: BI(sym.name), st }];
      if (ts.isSourceFile(d) || ts.isModuleDeclaration(d)) return [{ k: "ret", v: this.nsVal(sym, true), st }];
      if (/\/typescript\/lib\/lib\.|\/@types\/node\//.test(fname)) {
        if (/@types\/node/.test(fname) && this.isModuleExport(d)) return [{ k: "ret", v: S("ext:" + this.modName(d) + "." + sym.name, { label: "ext:" + this.modName(d) + "." + sym.name, ty: { kind: "function", nullable: false } }), st }];
        return this.loadGlobal(st, sym.name, ast);
      }
      return [{ k: "ret", v: S("ext:" + sym.name, { label: "ext:" + sym.name, ty: this.describeSafe(sym, d), decl: d }), st }];
    }
    if (ts.isFunctionDeclaration(d) && ts.isSourceFile(ownerOf(d))) {
      const impl = sym.declarations.find((x) => ts.isFunctionDeclaration(x) && x.body) || d;
      return [{ k: "ret", v: F(impl, null), st }];
    }
    if (ts.isClassDeclaration(d) && ts.isSourceFile(ownerOf(d))) return [{ k: "ret", v: K(d, null), st }];
    if (ts.isEnumDeclaration(d)) return [{ k: "ret", v: this.enumObj(st, d), st }];
    if (ts.isModuleDeclaration(d) || ts.isSourceFile(d)) return [{ k: "ret", v: this.nsVal(sym), st }];
    const c = this.cellFor(sym, frame);
    if (!c || c.missing) return [{ k: "ret", v: S("free:" + sym.name + ":" + this.symKey(sym), { label: sym.name, ty: this.describeSafe(sym, d) }), st }];
    if (c.mod) {
      const cur = st.heap.get(c.key);
      if (cur) return [{ k: "ret", v: cur, st }];
      if (ts.isVariableDeclaration(d) && d.initializer) {
        if (this.opts.moduleVar) {
          const r = this.opts.moduleVar(sym, d, st);
          if (r) {
            st.heap.set(c.key, r);
            return [{ k: "ret", v: r, st }];
          }
        }
        return this.runExpr(st, d.initializer, this.modFrame, UNDEF, "mod").map((o) => {
          if (o.k === "ret") o.st.heap.set(c.key, o.v);
          return o;
        });
      }
      if (ts.isVariableDeclaration(d)) return [{ k: "ret", v: UNDEF, st }];
      return [{ k: "ret", v: S("mod:" + sym.name, { label: sym.name, ty: this.describeSafe(sym, d) }), st }];
    }
    const cur = st.heap.get(c.key);
    if (cur) return [{ k: "ret", v: cur, st }];
    return [{ k: "ret", v: UNDEF, st }];
  }
  isModuleExport(d) {
    let n = d;
    while (n) {
      if (ts.isModuleDeclaration(n) && ts.isStringLiteral(n.name)) return true;
      n = n.parent;
    }
    return false;
  }
  modName(d) {
    let n = d;
    while (n) {
      if (ts.isModuleDeclaration(n) && ts.isStringLiteral(n.name)) return n.name.text;
      n = n.parent;
    }
    return "?";
  }
  describeSafe(sym, d) {
    try {
      return this.describe(this.checker.getTypeOfSymbolAtLocation(sym, d));
    } catch (_) {
      return { kind: "any", nullable: true };
    }
  }
  nsVal(sym, ext) {
    const key = "ns:" + this.symKey(sym);
    return mkVal([V.mkAtom(key, { k: "ns", sym, ext: !!ext, label: "ext:" + sym.name.replace(/^"|"$/g, "").split("/").pop() })]);
  }
  enumObj(st, d) {
    const at = objAtom("enum" + nid(d));
    if (!st.rec(at)) {
      const r = newObj();
      for (const m of d.members) {
        const v = this.checker.getConstantValue(m);
        r.props.set(m.name.text, C(v));
      }
      st.setRec(at, r);
    }
    return mkVal([at]);
  }
  // ---- alloc ----
  alloc(st, base, rec) {
    let id = base;
    let g = 0;
    while (st.heap.has("o:" + id) && g < (this.opts.maxGen || 3)) {
      g++;
      id = base + "'" + g;
    }
    const a = objAtom(id);
    st.setRec(a, rec);
    return mkVal([a]);
  }
  fresh(st, id, f) {
    const v = S(id, f);
    const key = v.atoms[0].key;
    for (const k of [...st.refine.keys()]) if (k.startsWith(key) || k.includes(key)) st.refine.delete(k);
    if (st.heap.has(key)) st.heap.delete(key);
    return v;
  }
  // ---- truthiness & co ----
  truthy(a, st) {
    switch (a.k) {
      case "const":
        return !!a.v;
      case "sym": {
        if (a.op === "!") {
          const inner = a.args[0].atoms[0];
          const t = this.truthy(inner, st);
          return t === null ? null : !t;
        }
        const r = st.refine.get(a.key);
        if (r) {
          if (r.t !== undefined) return r.t;
          if (r.n === true) return false;
          if (r.eq) return !!r.eq.v;
        }
        if (a.lenMin) return true;
        if (a.ty && ["object", "function", "array", "promise", "symbol"].includes(a.ty.kind)) {
          if (!a.ty.nullable || (r && r.n === false)) return true;
        }
        // JSON text is never empty
        if (a.op === "json" && (!a.ty.nullable || (r && r.n === false))) return true;
        if (a.ty && a.ty.kind === "nullish") return false;
        if (a.ty && a.ty.lits && !a.ty.nullable && a.ty.lits.every((x) => !!x)) return true;
        return null;
      }
      case "str":
        return a.parts.some((p) => typeof p === "string" && p.length) ? true : null;
      case "top":
        return null;
      default:
        return true;
    }
  }
  nullish(a, st) {
    switch (a.k) {
      case "const":
        return a.v === undefined || a.v === null;
      case "sym": {
        const r = st.refine.get(a.key);
        if (r) {
          if (r.n !== undefined) return r.n;
          if (r.t === true) return false;
          if (r.eq) return r.eq.v == null;
          if (r.ty && r.ty !== "undefined" && r.ty !== "object") return false;
        }
        if (a.ty && !a.ty.nullable) return false;
        if (a.ty && a.ty.kind === "nullish") return true;
        return null;
      }
      case "top":
        return null;
      default:
        return false;
    }
  }
  undef(a, st) {
    if (a.k === "const") return a.v === undefined;
    const n = this.nullish(a, st);
    if (n === false) return false;
    if (a.k === "sym") {
      const r = st.refine.get(a.key);
      if (r && r.eq) return r.eq.v === undefined;
      if (r && r.ne && r.ne.some((x) => x.v === undefined)) return false;
    }
    return n === true && a.k === "sym" && !(a.ty && a.ty.kind === "nullish") ? null : n === true ? null : n;
  }
  typeofAtom(a, st) {
    switch (a.k) {
      case "const":
        return a.v === null ? "object" : typeof a.v;
      case "str":
        return "string";
      case "fn":
      case "cls":
      case "bound":
        return "function";
      case "obj":
      case "ns":
        return "object";
      case "bi":
        if (this.opts.globals && this.opts.globals[a.name] === true && !/^[A-Z]/.test(a.name)) return "object";
        return /^[A-Z]/.test(a.name) || a.name.includes("#") || a.name.includes(".") ? "function" : a.name === "globalThis" ? "object" : ["process", "console", "window", "navigator"].includes(a.name) ? null : "function";
      case "sym": {
        const r = st.refine.get(a.key);
        if (r && r.ty) return r.ty;
        if (r && r.eq) return r.eq.v === null ? "object" : typeof r.eq.v;
        const nn = this.nullish(a, st) === false;
        const map = { string: "string", number: "number", boolean: "boolean", function: "function", object: "object", array: "object", promise: "object", symbol: "symbol" };
        if (a.ty && map[a.ty.kind] && nn) return map[a.ty.kind];
        return null;
      }
    }
    return null;
  }
  addRefine(st, a, f) {
    if (a.k !== "sym") return;
    if (a.op === "!" && f.t !== undefined) {
      this.addRefine(st, a.args[0].atoms[0], { t: !f.t });
      return;
    }
    const r = Object.assign({}, st.refine.get(a.key) || {}, f);
    if (f.ne && st.refine.get(a.key)?.ne) r.ne = [...new Set([...st.refine.get(a.key).ne, ...f.ne])];
    st.refine.set(a.key, RF(r));
  }
  // equality: true / false / null
  eqAtoms(a, b, st, loose) {
    if (a.k === "sym") {
      const r = st.refine.get(a.key);
      if (r && r.eq) a = r.eq;
      else if (r && r.ne && b.k === "const" && r.ne.includes(b)) return false;
    }
    if (b.k === "sym") {
      const r = st.refine.get(b.key);
      if (r && r.eq) b = r.eq;
      else if (r && r.ne && a.k === "const" && r.ne.includes(a)) return false;
    }
    if (a.k === "const" && b.k === "const") return loose ? a.v == b.v : a.v === b.v;
    if (b.k === "const" && a.k !== "const") [a, b] = [b, a];
    if (a.k === "const") {
      if (a.v === undefined || a.v === null) {
        const n = this.nullish(b, st);
        if (n === false) return false;
        if (loose && n === true) return true;
        return b.k === "sym" || b.k === "top" ? null : false;
      }
      if (b.k === "str") {
        if (typeof a.v !== "string") return false;
        const p0 = b.parts[0];
        if (typeof p0 === "string" && !a.v.startsWith(p0)) return false;
        const pl = b.parts[b.parts.length - 1];
        if (typeof pl === "string" && !a.v.endsWith(pl)) return false;
        return null;
      }
      if (b.k === "sym") {
        if (b.ty && b.ty.lits && !b.ty.lits.includes(a.v)) return false;
        const ty = this.typeofAtom(b, st);
        if (ty && ty !== typeof a.v && !loose) return false;
        if (b.ty && ["string", "number", "boolean", "object", "array", "function", "promise"].includes(b.ty.kind)) {
          const m = { string: "string", number: "number", boolean: "boolean" }[b.ty.kind] || "object";
          if (!loose && m !== typeof a.v) return false;
        }
        const t = this.truthy(b, st);
        if (t !== null && t !== !!a.v) return false;
        return null;
      }
      if (b.k === "top") return null;
      return false;
    }
    if (a === b) {
      if (a.k === "sym" || a.k === "str") return true;
      if (a.k === "top") return null;
      return true;
    }
    if (a.k === "sym" || b.k === "sym" || a.k === "top" || b.k === "top") {
      // fresh allocations differ from unknown inputs
      return null;
    }
    if (a.k === "str" && b.k === "str") {
      const pa = typeof a.parts[0] === "string" ? a.parts[0] : "";
      const pb = typeof b.parts[0] === "string" ? b.parts[0] : "";
      const n = Math.min(pa.length, pb.length);
      if (pa.slice(0, n) !== pb.slice(0, n)) return false;
      return null;
    }
    return false;
  }
  eqVals(a, b, st, loose) {
    let t = false, f = false;
    for (const x of a.atoms) for (const y of b.atoms) {
      const r = this.eqAtoms(x, y, st, loose);
      if (r !== false) t = true;
      if (r !== true) f = true;
    }
    if (a.atoms.length > 1 && t) f = true;
    if (t && !f) return true;
    if (f && !t) return false;
    return null;
  }
  // ---- running ----
  where(frame) {
    return frame && frame.node ? this.p.loc(frame.node) : "?";
  }
  fnName(node) {
    if (!node) return "<module>";
    if (node.name && node.name.getText) return (node.parent && ts.isClassLike(node.parent) && node.parent.name ? node.parent.name.text + "." : "") + node.name.getText();
    if (ts.isConstructorDeclaration(node)) return (node.parent.name ? node.parent.name.text : "") + ".constructor";
    const p = node.parent;
    if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p.name.text;
    if (p && ts.isPropertyAssignment(p)) return p.name.getText();
    return "<fn>";
  }
  runExpr(st, expr, scope, thisVal, site) {
    const ir = this.lw.forExpr(expr);
    // initializers own no variables of their own; reuse scope chain but with own `this`
    const fr = { id: `${scope.id}/i${nid(expr)}~${thisVal.key}`, node: expr, parent: scope.node ? scope : null, thisVal, args: [], depth: (scope.depth || 0) + 1, caller: scope };
    const saved = st.tmp;
    st.tmp = new Map();
    const outs = this.runIR(ir, fr, ir.entry, st, "force");
    for (const o of outs) o.st.tmp = outs.length > 1 ? new Map(saved) : saved;
    return outs;
  }
  // call a closure. Returns outcomes ret/throw
  callFn(st, atom, thisVal, args, caller, site, ast) {
    const node = atom.node;
    if (!node.body) return [{ k: "ret", v: TOP, st }];
    const tv = atom.thisv || thisVal || UNDEF;
    if (atom.bargs) args = atom.bargs.concat(args);
    let rec = 0;
    let f = caller;
    let depth = 0;
    while (f) {
      if (f.node === node) rec++;
      f = f.caller;
      depth++;
    }
    // recursion driven by known numbers or strings only (pages, attempts) is followed further
    const known = rec && rec < 30 && args.length && args.every((x) => x.atoms.length === 1 && x.atoms[0].k === "const");
    if ((rec >= (this.opts.maxRec || 2) && !known) || depth > this.opts.maxDepth) {
      return [{ k: "ret", v: this.fresh(st, `rec:${this.fnName(node)}@${caller ? caller.id : ""}:${site}`, { ty: this.retTy(node), label: this.fnName(node) + "()" }), st }];
    }
    const ir = this.lw.forFunction(node);
    this.stats.functions.add(node);
    const frame = this.mkFrame(caller, site, node, atom.scope, ts.isArrowFunction(node) ? UNDEF : tv, st);
    frame.args = args;
    const saved = st.tmp;
    st.tmp = new Map();
    this.stack.push(`${this.fnName(node)} (${this.p.loc(node)})`);
    let res;
    try {
      if (ir.isGen) {
        const g = this.alloc(st, `gen:${frame.id}`, { t: "gen", ir, frame, args, isAsync: ir.isAsync });
        st.heap.set("live:" + frame.id, TRUE);
        res = [{ k: "ret", v: g, st }];
      } else if (ir.isAsync) {
        const outs = this.runIR(ir, frame, ir.entry, st, "spawn");
        res = outs.map((o) => {
          let rec;
          if (o.k === "ret") rec = this.resolvedRec(o.v);
          else if (o.k === "throw") rec = this.promRec("rejected", { v: o.v });
          else {
            rec = this.promRec("pending", { cont: o.cont });
            o.st.heap.set("live:" + frame.id, TRUE);
          }
          rec.label = this.fnName(node);
          rec.origin = ast;
          const pv = this.alloc(o.st, `p:${frame.id}`, rec);
          return { k: "ret", v: pv, st: o.st };
        });
      } else {
        res = this.runIR(ir, frame, ir.entry, st, "force");
        if (ir.hasClosures) for (const o of res) o.st.heap.set("live:" + frame.id, TRUE);
        else if (this.opts.gc !== false) {
          const pre = `v:${frame.id}:`, pre2 = `y:${frame.id}:`;
          for (const o of res) for (const k of [...o.st.heap.keys()]) if (k.startsWith(pre) || k.startsWith(pre2)) o.st.heap.delete(k);
        }
      }
    } finally {
      this.stack.pop();
    }
    for (const o of res) o.st.tmp = res.length > 1 ? new Map(saved) : saved;
    return this.reduceOuts(res);
  }
  retTy(node) {
    try {
      const sig = this.checker.getSignatureFromDeclaration(node);
      return this.describe(this.checker.getReturnTypeOfSignature(sig));
    } catch (_) {
      return { kind: "any", nullable: true };
    }
  }
  reduceOuts(outs) {
    if (outs.length <= 1) return outs;
    // dedupe equal states+values; bound the number of outcomes
    const res = [];
    for (const o of outs) {
      let dup = false;
      for (const r of res)
        if (r.k === o.k && r.v === o.v && eqState(r.st, o.st)) {
          dup = true;
          break;
        }
      if (!dup) res.push(o);
    }
    if (res.length <= this.opts.K) return res;
    this.stats.merges++;
    const groups = new Map();
    for (const o of res) {
      const k = o.k + "|" + o.st.partKey();
      if (!groups.has(k)) groups.set(k, o);
      else {
        const g = groups.get(k);
        groups.set(k, { k: o.k, v: union(g.v, o.v), st: mergeStates(g.st, o.st) });
      }
    }
    return [...groups.values()];
  }
  promRec(s, f) {
    return Object.assign({ t: "promise", s, v: null, cont: null, parent: null, onF: null, onR: null, fin: null, list: null, handled: false, reactions: [], token: null }, f);
  }
  // an unknown value of the user's that may be a promise and was not awaited yet
  maybePromise(a) {
    return a.k === "sym" && a.user && !a.awaitedOf && !["string", "number", "boolean", "nullish"].includes((a.ty || {}).kind);
  }
  resolvedRec(v) {
    // the function's promise adopts a returned promise, with its rejection
    if (v.atoms.some((a) => this.maybePromise(a))) return this.promRec("then", { parent: v });
    return this.promRec("resolved", { v });
  }
  runIR(ir, frame, start, st0, mode, injectExc) {
    const outs = [];
    const pend = new Map(); // node -> states
    const seen = new Map();
    const visits = new Map();
    const queue = [];
    const push = (n, st) => {
      if (n == null) return;
      let l = pend.get(n);
      if (!l) {
        l = [];
        pend.set(n, l);
        queue.push(n);
      }
      l.push(st);
    };
    push(start, st0);
    const K = this.opts.K;
    while (queue.length) {
      let bi = 0;
      for (let i = 1; i < queue.length; i++) if (ir.rpo[queue[i]] < ir.rpo[queue[bi]]) bi = i;
      const ni = queue[bi];
      queue.splice(bi, 1);
      let states = pend.get(ni);
      pend.delete(ni);
      const node = ir.nodes[ni];
      if (states.length > 1) states = this.reduceStates(states, K);
      if (node.loopHead || node.loop) {
        const sn = seen.get(ni) || [];
        const vc = (visits.get(ni) || 0) + 1;
        visits.set(ni, vc);
        const next = [];
        for (let s of states) {
          if (sn.some((x) => leqState(s, x))) continue;
          if (vc > 14) {
            // widen with accumulated state of the same typestate
            const pk = s.partKey();
            const idx = sn.findIndex((x) => x.partKey() === pk);
            if (idx >= 0) {
              s = mergeStates(sn[idx], s, vc > 20);
              sn[idx] = s.clone();
              next.push(s);
              continue;
            }
          }
          sn.push(s.clone());
          next.push(s);
        }
        seen.set(ni, sn);
        states = next;
      }
      for (const st of states) {
        if (++this.steps > this.opts.maxSteps) throw new BudgetError("step budget exceeded in " + this.fnName(ir.node));
        if ((this.steps & 1023) === 0 && process.uptime() > MAX_SECONDS) throw new BudgetError("time budget exceeded in " + this.fnName(ir.node));
        this.stats.nodes.add(node);
        this.step(ir, node, st, frame, mode, push, outs);
      }
    }
    for (const o of outs)
      if (o.k !== "susp" && o.st.iters) for (const k of o.st.iters) {
        if (k.startsWith(`y:${frame.id}:`)) this.dropIter(o.st, k);
        else if (k.startsWith(`v:${frame.id}:`)) o.st.iters = o.st.iters.length > 1 ? o.st.iters.filter((x) => x !== k) : undefined;
      }
    return this.reduceOutsRaw(outs);
  }
  reduceOutsRaw(outs) {
    const susp = outs.filter((o) => o.k === "susp");
    const rest = outs.filter((o) => o.k !== "susp");
    return this.reduceOuts(rest).concat(susp);
  }
  reduceStates(states, K) {
    const res = [];
    for (const s of states) if (!res.some((r) => eqState(r, s))) res.push(s);
    if (res.length <= K) return res;
    this.stats.merges++;
    const g = new Map();
    for (const s of res) {
      const k = s.partKey();
      g.set(k, g.has(k) ? mergeStates(g.get(k), s) : s);
    }
    return [...g.values()];
  }
  // exceptional successor
  raise(ir, node, st, v, push, outs) {
    if (node.exc && node.exc.entry != null) {
      st.tmp.set("exc", v);
      push(node.exc.entry, st);
    } else outs.push({ k: "throw", v, st });
  }
  fan(ir, node, outcomes, push, outs, dst) {
    for (const o of outcomes) {
      if (o.k === "ret") {
        if (dst != null) o.st.tmp.set(dst, o.v);
        push(node.next, o.st);
      } else if (o.k === "throw") this.raise(ir, node, o.st, o.v, push, outs);
    }
  }
  step(ir, n, st, frame, mode, push, outs) {
    const T = (i) => st.tmp.get(i) || UNDEF;
    switch (n.op) {
      case "entry":
      case "nop":
        push(n.next, st);
        return;
      case "stmtEnd":
        st.tmp = new Map();
        push(n.next, st);
        return;
      case "unsupported":
        this.stats.unsupported.add(this.p.loc(n.ast) + " " + n.what);
        push(n.next, st);
        return;
      case "const":
        st.tmp.set(n.dst, C(n.v));
        push(n.next, st);
        return;
      case "regex":
        {
          // a global or sticky expression has state: each evaluation of the literal makes a new one
          const state = /\/[a-z]*[gy][a-z]*$/.test(n.src);
          const key = "re:" + n.src + (state ? "@" + this.p.loc(n.ast) : "");
          st.heap.delete("rx:" + key);
          st.tmp.set(n.dst, mkVal([V.mkAtom(key, { k: "regex", src: n.src })]));
        }
        push(n.next, st);
        return;
      case "opaque":
        st.tmp.set(n.dst, S(`opq@${frame.id}:${n.i}`, { label: n.what }));
        push(n.next, st);
        return;
      case "param": {
        let v;
        if (n.rest) {
          const rest = frame.args.slice(n.idx);
          if (frame.args.open) v = this.alloc(st, `rest@${frame.id}:${n.i}`, { ...newArr(), elems: null, sum: union(...rest, TOP) });
          else v = this.alloc(st, `rest@${frame.id}:${n.i}`, newArr(elemsOf(rest)));
        } else {
          v = frame.args[n.idx];
          if (v === undefined) {
            if (frame.args.unknown) {
              const ty = this.tyAt(n.ast.name);
              const nm = n.ast.name.getText();
              v = S(`arg:${nm}@${frame.id}`, { label: nm, ty: n.ast.questionToken || n.ast.initializer ? { ...ty, nullable: true } : ty });
            } else v = frame.args.open ? TOP : UNDEF;
          }
        }
        st.tmp.set(n.dst, v);
        push(n.next, st);
        return;
      }
      case "move":
        st.tmp.set(n.dst, T(n.src));
        push(n.next, st);
        return;
      case "this":
        st.tmp.set(n.dst, this.thisOf(frame));
        push(n.next, st);
        return;
      case "loadVar":
        this.fan(ir, n, this.loadSym(st, n.v, frame, n.ast, n.name), push, outs, n.dst);
        return;
      case "storeVar": {
        if (n.v) {
          const c = this.cellFor(n.v, frame);
          if (c && c.key) {
            st.heap.set(c.key, T(n.src));
            if (this.opts.onStoreVar) this.opts.onStoreVar({ st, sym: n.v, v: T(n.src), ast: n.ast, frame, interp: this });
          }
        }
        push(n.next, st);
        return;
      }
      case "storeSyn":
        st.heap.set(`y:${frame.id}:${n.v}`, T(n.src));
        push(n.next, st);
        return;
      case "loadSyn":
        st.tmp.set(n.dst, st.heap.get(`y:${frame.id}:${n.v}`) || UNDEF);
        push(n.next, st);
        return;
      case "closure": {
        st.tmp.set(n.dst, F(n.fn, frame));
        push(n.next, st);
        return;
      }
      case "class":
        st.tmp.set(n.dst, K(n.cls, frame));
        push(n.next, st);
        return;
      case "objNew":
        st.tmp.set(n.dst, this.alloc(st, `${frame.id}:${n.i}`, newObj()));
        push(n.next, st);
        return;
      case "arrNew":
        st.tmp.set(n.dst, this.alloc(st, `${frame.id}:${n.i}`, newArr()));
        push(n.next, st);
        return;
      case "arrPush": {
        const a = T(n.arr).atoms[0];
        const r = st.rec(a);
        st.setRec(a, this.arrAdd(r, [{ v: T(n.src), m: false }]));
        push(n.next, st);
        return;
      }
      case "arrSpread": {
        const a = T(n.arr).atoms[0];
        const it = this.listOf(st, T(n.src), frame, n);
        const r = st.rec(a);
        if (it.elems) st.setRec(a, this.arrAdd(r, it.elems));
        else st.setRec(a, { ...r, elems: null, sum: unionOpt(sumOf(r), it.sum) });
        push(n.next, st);
        return;
      }
      case "objSpread": {
        this.spreadInto(st, T(n.obj).atoms[0], T(n.src), n.ast);
        push(n.next, st);
        return;
      }
      case "objGetter": {
        const a = T(n.obj).atoms[0];
        const r = st.rec(a);
        const g = new Map(r.getters || []);
        g.set(n.name, T(n.src));
        st.setRec(a, { ...r, getters: g });
        push(n.next, st);
        return;
      }
      case "objRest": {
        const src = T(n.src);
        const nv = this.alloc(st, `${frame.id}:${n.i}`, newObj());
        this.spreadInto(st, nv.atoms[0], src, n.ast);
        const r = st.rec(nv.atoms[0]);
        const props = new Map(r.props);
        for (const k of n.excl) props.delete(k);
        st.setRec(nv.atoms[0], { ...r, props, excl: n.excl.slice() });
        for (const t of n.exclT || []) for (const k of T(t).atoms) this.delProp(st, nv.atoms[0], mkVal([k]), T(t).atoms.length === 1);
        st.tmp.set(n.dst, nv);
        push(n.next, st);
        return;
      }
      case "arrRest": {
        const it = this.listOf(st, T(n.src), frame, n);
        const nv = this.alloc(st, `${frame.id}:${n.i}`, it.elems ? newArr(it.elems.slice(n.from)) : { ...newArr(), elems: null, sum: it.sum });
        st.tmp.set(n.dst, nv);
        push(n.next, st);
        return;
      }
      case "getProp":
        this.fan(ir, n, this.getProp(st, T(n.obj), n.name, n.ast, frame, n), push, outs, n.dst);
        return;
      case "getElemIdx": {
        const base = T(n.obj);
        this.fan(ir, n, this.getElem(st, base, C(n.idx), n.ast, frame, n), push, outs, n.dst);
        return;
      }
      case "getElem":
        this.fan(ir, n, this.getElem(st, T(n.obj), T(n.key), n.ast, frame, n), push, outs, n.dst);
        return;
      case "setProp":
        this.fan(ir, n, this.setProp(st, T(n.obj), C(n.name), T(n.src), n.ast, frame, n), push, outs, null);
        return;
      case "setElem":
        this.fan(ir, n, this.setProp(st, T(n.obj), T(n.key), T(n.src), n.ast, frame, n), push, outs, null);
        return;
      case "delProp":
      case "delElem": {
        const key = n.op === "delProp" ? C(n.name) : T(n.key);
        for (const a of T(n.obj).atoms) this.delProp(st, a, key, T(n.obj).atoms.length === 1);
        if (this.opts.onDelete) this.opts.onDelete({ st, obj: T(n.obj), key, ast: n.ast, frame, interp: this });
        push(n.next, st);
        return;
      }
      case "bin":
        this.counter(st, n, T(n.a), T(n.b), frame);
        this.fan(ir, n, this.binOp(st, n.o, T(n.a), T(n.b), n.ast, frame), push, outs, n.dst);
        return;
      case "un":
        st.tmp.set(n.dst, this.unOp(st, n.o, T(n.a)));
        push(n.next, st);
        return;
      case "template": {
        st.tmp.set(n.dst, strVal(n.parts.map((p) => this.toStr(st, T(p)))));
        push(n.next, st);
        return;
      }
      case "br":
        this.branch(ir, n, st, frame, push, T);
        return;
      case "ret":
        if (this.opts.onReturn) this.opts.onReturn({ st, v: T(n.src), ast: n.ast, frame, interp: this });
        outs.push({ k: "ret", v: T(n.src), st });
        return;
      case "throw":
        this.raise(ir, n, st, T(n.src), push, outs);
        return;
      case "catch":
        st.tmp.set(n.dst, st.tmp.get("exc") || TOP);
        st.tmp.delete("exc");
        push(n.next, st);
        return;
      case "fieldInit":
        this.fan(ir, n, this.fieldInit(st, frame), push, outs, null);
        return;
      case "superCall":
        this.fan(ir, n, this.superCall(st, frame, this.argList(st, n.args, T, frame, n), n), push, outs, n.dst);
        return;
      case "superGet": {
        const cls = this.enclosingClass(frame);
        const base = cls && this.baseClass(cls);
        let v = S("super." + n.name, { label: "super." + n.name });
        if (base && base.node) {
          const m = this.findMember(base.node, n.name);
          if (m) v = F(m.node, null);
        }
        st.tmp.set(n.dst, v);
        push(n.next, st);
        return;
      }
      case "call": {
        const args = this.argList(st, n.args, T, frame, n);
        this.fan(ir, n, this.call(st, T(n.callee), n.thisT != null ? T(n.thisT) : UNDEF, args, n.ast, frame, n.i, n.name), push, outs, n.dst);
        return;
      }
      case "new": {
        const args = this.argList(st, n.args, T, frame, n);
        this.fan(ir, n, this.construct(st, T(n.callee), args, n.ast, frame, n.i), push, outs, n.dst);
        return;
      }
      case "await": {
        this.stats.awaits++;
        if (mode === "spawn" || (mode === "step" && !this.resuming)) {
          for (const x of T(n.src).atoms) if (this.isPromiseAtom(st, x) && !st.rec(x).handled) this.setProm(st, x, { handled: true });
          outs.push({ k: "susp", st, cont: { ir, frame, n: n.i, tmp: new Map(st.tmp), seq: this.seq++ } });
          return;
        }
        this.resuming = false;
        this.fan(ir, n, this.awaitVal(st, T(n.src), n.ast, frame), push, outs, n.dst);
        return;
      }
      case "yield": {
        const after = (this.opts.onYield && this.opts.onYield({ st, v: T(n.src), ast: n.ast, frame, interp: this })) || [st]; // the consumer may run other code
        // consumer may resume, stop early (return injection) or throw
        for (const c of after) {
          const s1 = c.clone();
          s1.tmp.set(n.dst, UNDEF);
          push(n.next, s1);
          if (n.inject != null) {
            const s2 = c.clone();
            s2.setFact("consumer", "stopped");
            push(n.inject, s2);
          }
        }
        return;
      }
      case "iterInit":
        this.iterInit(st, n, T(n.src), frame);
        push(n.next, st);
        return;
      case "iterNext":
        this.iterNext(ir, n, st, frame, mode, push, outs);
        return;
      default:
        throw new Error("unknown op " + n.op);
    }
  }
  arrAdd(r, elems) {
    if (r.elems) {
      if (r.elems.length + elems.length > (this.opts.maxElems || 40)) return { ...r, elems: null, sum: unionOpt(sumOf(r), sumOf({ elems })) };
      return { ...r, elems: r.elems.concat(elems) };
    }
    return { ...r, sum: unionOpt(r.sum, sumOf({ elems })) };
  }
  toStr(st, v) {
    const a = single(v);
    if (a && a.k === "sym") {
      const r = st.refine.get(a.key);
      if (r && r.eq) return mkVal([r.eq]);
    }
    return v;
  }
  argList(st, args, T, frame, n) {
    const out = [];
    for (const a of args) {
      if (a.spread) {
        const it = this.listOf(st, T(a.t), frame, n);
        if (it.elems && !it.elems.some((e) => e.m)) for (const e of it.elems) out.push(e.v);
        else {
          out.open = true;
          out.openVal = it.elems ? sumOf({ elems: it.elems }) : it.sum;
          out.spreadOf = T(a.t);
          break;
        }
      } else out.push(T(a.t));
    }
    return out;
  }
  // contents of an iterable value: {elems:[{v,m}]} or {sum}
  listOf(st, v, frame, n, what = "elem") {
    const a = single(v);
    if (a && a.k === "obj") {
      const r = st.rec(a);
      if (r) {
        if (r.t === "arr") return r.elems ? { elems: r.elems } : { sum: r.sum || UNDEF };
        if (r.t === "set") return r.open ? { sum: union(TOP, ...[...r.entries.values()].map((e) => e.k)) } : { elems: [...r.entries.values()].map((e) => ({ v: e.k, m: e.m })) };
        if (r.t === "map") {
          const f = frame ? frame.id : "x";
          return {
            elems: [...r.entries.values()].map((e, i) => {
              const pv = this.alloc(st, `me:${f}:${n ? n.i : 0}:${i}`, newArr(elemsOf([e.k, e.v])));
              return { v: pv, m: e.m };
            }),
            open: r.open,
          };
        }
        if (r.t === "gen") return { sum: TOP };
      }
    }
    if (a && a.k === "sym") {
      return { sum: S(`${a.id}[*]`, { label: a.label + "[*]", ty: this.elemTy(a, n), taint: a.taint || [], user: a.user }), src: a };
    }
    if (a && a.k === "const" && (a.v === undefined || a.v === null)) return { elems: [] };
    if (a && a.k === "const" && typeof a.v === "string" && a.v.length <= 600) return { elems: [...a.v].map((c) => ({ v: C(c), m: false })) };
    if (v.atoms.length > 1) {
      const ls = v.atoms.filter((x) => !(x.k === "const" && x.v == null)).map((x) => this.listOf(st, mkVal([x]), frame, n));
      if (ls.length === 1) return ls[0].elems ? { elems: ls[0].elems.map((e) => ({ v: e.v, m: true })) } : ls[0];
      let s = null;
      for (const l of ls) s = unionOpt(s, l.elems ? sumOf(l) : l.sum);
      return { sum: s || UNDEF };
    }
    if (a && a.k === "str") return { sum: opSym("char", [v], { kind: "string", nullable: false }) };
    return { sum: TOP };
  }
  elemTy(a, n) {
    return { kind: "any", nullable: true };
  }
  // ---- iteration ----
  iterInit(st, n, src, frame) {
    let rec;
    if (n.forIn) {
      const ks = this.keysOf(st, src);
      rec = { t: "iter", elems: ks.elems || null, sum: ks.sum || null, pos: 0, src, keys: ks.elems ? ks.elems.map((e) => e.v.key).join() : ks.sum.key };
    } else {
      const it = this.listOf(st, src, frame, n);
      rec = { t: "iter", elems: it.elems || null, sum: it.sum || null, pos: 0, src, keys: it.elems ? it.elems.map((e) => e.v.key).join() : it.sum.key, live: !n.forIn };
      const r = single(src) && single(src).k === "obj" && st.rec(single(src));
      if (r && r.t === "arr" && r.isIter && it.elems) rec.shared = single(src); // an iterator keeps its position across loops
      else if (r && r.t === "arr" && it.elems) rec.of = single(src);
    }
    const key = `y:${frame.id}:${n.v}`;
    st.heap.set(key, rec);
    if (rec.elems && !(st.iters && st.iters.includes(key))) st.iters = [...(st.iters || []), key].sort();
  }
  // a loop condition that compares a local counter with a known bound: the counter separates the states of its loop, as
  // the position of an iterator does
  counter(st, n, a, b, frame) {
    if (n.ctr === undefined) {
      n.ctr = null;
      const x = n.ast;
      if (x && ts.isBinaryExpression(x) && /^(<|<=|>|>=|!==?)$/.test(x.operatorToken.getText())) {
        let y = x;
        while (y.parent && (ts.isBinaryExpression(y.parent) || ts.isParenthesizedExpression(y.parent))) y = y.parent;
        const q = y.parent;
        const inCond = q && ((ts.isForStatement(q) && q.condition === y) || ((ts.isWhileStatement(q) || ts.isDoStatement(q)) && q.expression === y));
        if (inCond) {
          const id = ts.isIdentifier(x.left) ? x.left : ts.isIdentifier(x.right) ? x.right : null;
          const sym = id && this.checker.getSymbolAtLocation(id);
          if (sym) n.ctr = { sym, other: id === x.left ? 1 : 0 };
        }
      }
    }
    if (!n.ctr) return;
    const c = this.cellFor(n.ctr.sym, frame);
    if (!c || !c.key || c.mod) return;
    const num = (v) => v.atoms.length === 1 && v.atoms[0].k === "const" && typeof v.atoms[0].v === "number" && Math.abs(v.atoms[0].v) <= 40;
    const has = st.iters && st.iters.includes(c.key);
    if (num(a) && num(b)) {
      if (!has) st.iters = [...(st.iters || []), c.key].sort();
    } else if (has) {
      st.iters = st.iters.filter((k) => k !== c.key);
      if (!st.iters.length) st.iters = undefined;
    }
  }
  dropIter(st, key) {
    st.heap.delete(key);
    if (st.iters) {
      st.iters = st.iters.filter((x) => x !== key);
      if (!st.iters.length) st.iters = undefined;
    }
  }
  iterNext(ir, n, st, frame, mode, push, outs) {
    if (n.isAsync && mode === "spawn") {
      outs.push({ k: "susp", st, cont: { ir, frame, n: n.i, tmp: new Map(st.tmp) } });
      return;
    }
    const key = `y:${frame.id}:${n.v}`;
    let it = st.heap.get(key);
    if (n.isAsync && this.opts.asyncIterThrows !== false) {
      const s = st.clone();
      this.raise(ir, n, s, S(`iterErr@${frame.id}:${n.i}`, { label: "stream error", ty: { kind: "object", nullable: false } }), push, outs);
    }
    if (it && it.shared) {
      const r = st.rec(it.shared);
      if (r && r.elems) {
        // the position is that of the iterator, which others may advance
        it = { ...it, pos: it.elems.length - r.elems.length };
        if (r.elems.length) st.setRec(it.shared, { ...r, elems: r.elems.slice(1) });
      } else it = { ...it, elems: null, sum: (r && r.sum) || TOP };
    } else if (it && it.of && it.elems) {
      // elements appended during the iteration are visited
      const r = st.rec(it.of);
      if (r && r.t === "arr" && r.elems && r.elems.length > it.elems.length && r.elems.length <= (this.opts.maxElems || 40) && it.elems.every((e, i) => r.elems[i].v === e.v)) it = { ...it, elems: r.elems, keys: r.elems.map((e) => e.v.key).join() };
    }
    if (it && it.elems) {
      if (it.pos >= it.elems.length) {
        this.dropIter(st, key);
        push(n.f, st);
        return;
      }
      const e = it.elems[it.pos];
      if (e.m) {
        const s2 = st.clone();
        s2.heap.set(key, { ...it, pos: it.pos + 1 });
        push(n.i, s2); // skip this element
      }
      st.heap.set(key, { ...it, pos: it.pos + 1 });
      const go = (s, v) => {
        s.tmp.set(n.dst, v);
        push(n.t, s);
      };
      if (n.isAsync) {
        for (const o of this.awaitVal(st, e.v, n.ast, frame)) o.k === "ret" ? go(o.st, o.v) : this.raise(ir, n, o.st, o.v, push, outs);
      } else go(st, e.v);
      return;
    }
    const s2 = st.clone();
    this.dropIter(s2, key);
    push(n.f, s2);
    const sum = (it && it.sum) || TOP;
    const a = single(sum);
    if (a && a.k === "sym") for (const k of [...st.refine.keys()]) if (k.includes(a.key)) st.refine.delete(k);
    if (a && a.k === "sym") st.heap.delete(a.key);
    st.tmp.set(n.dst, sum);
    push(n.t, st);
  }
  // ---- branching ----
  branch(ir, n, st, frame, push, T) {
    const v = T(n.src);
    const pred = n.test === "truthy" ? (a) => this.truthy(a, st) : n.test === "nullish" ? (a) => this.nullish(a, st) : (a) => this.undef(a, st);
    const ta = [], fa = [];
    let unk = 0;
    for (const a of v.atoms) {
      const r = pred(a);
      if (r === null) unk++;
      if (r !== false) ta.push(a);
      if (r !== true) fa.push(a);
    }
    const mk = (atoms, sense, s) => {
      const nv = mkVal(atoms);
      s.tmp.set(n.src, nv);
      const a = single(nv);
      if (a && a.k === "sym" && pred(a) === null) {
        if (n.test === "truthy") {
          this.addRefine(s, a, { t: sense });
          if (sense && a.ty && a.ty.nullable) this.addRefine(s, a, { n: false });
        } else if (n.test === "nullish") this.addRefine(s, a, { n: sense });
        else if (n.test === "undef") this.addRefine(s, a, sense ? { eq: constAtom(undefined) } : { ne: [constAtom(undefined)] });
      }
      if (n.narrow && !this.narrow(s, n.narrow, sense, frame, T, n)) return;
      push(sense ? n.t : n.f, s);
    };
    const both = ta.length && fa.length;
    if (ta.length) mk(ta, true, both ? st.clone() : st);
    if (fa.length) mk(fa, false, st);
  }
  narrow(st, nr, sense, frame, T, n) {
    const cell = nr.ref ? this.resolveRef(st, nr.ref, frame) : null;
    const filt = (p) => {
      if (!cell) return true;
      const cur = cell.get();
      if (!cur) return true;
      const keep = cur.atoms.filter(p);
      if (!keep.length) return false;
      if (keep.length !== cur.atoms.length) cell.set(mkVal(keep));
      return true;
    };
    const ref1 = (f) => {
      if (!cell) return;
      const cur = cell.get();
      const a = cur && single(cur);
      if (a && a.k === "sym") this.addRefine(st, a, f);
    };
    switch (nr.kind) {
      case "truthy": {
        if (!filt((a) => { const t = this.truthy(a, st); return t === null || t === sense; })) return false;
        return true;
      }
      case "nullish": {
        if (!filt((a) => { const t = this.nullish(a, st); return t === null || t === sense; })) return false;
        return true;
      }
      case "isArray": {
        if (!filt((a) => { const t = builtins.isArrayAtom(this, st, a); return t === null || t === sense; })) return false;
        return true;
      }
      case "eq": {
        const eqSense = nr.neg ? !sense : sense;
        const b = T(nr.b);
        const a0 = T(nr.a);
        const ba = single(b);
        if (eqSense) {
          if (!filt((x) => b.atoms.some((y) => this.eqAtoms(x, y, st, nr.loose) !== false))) return false;
          const aa = single(cell && cell.get() ? cell.get() : a0);
          if (aa && aa.k === "sym" && ba && ba.k === "const") {
            if (nr.loose && (ba.v === null || ba.v === undefined)) this.addRefine(st, aa, { n: true });
            else this.addRefine(st, aa, { eq: ba });
          }
          if (cell && cell.get() && ba && ba.k === "const" && !nr.loose && cell.isVar) {
            const cur = cell.get();
            if (cur.atoms.length > 1 && cur.atoms.every((x) => x.k === "const")) cell.set(b);
          }
        } else {
          if (ba) {
            if (!filt((x) => { const r = this.eqAtoms(x, ba, st, nr.loose); return r !== true || (x.k !== "const" && x !== ba && x.k !== "sym"); })) return false;
            const aa = single(cell && cell.get() ? cell.get() : a0);
            if (aa && aa.k === "sym" && ba.k === "const") {
              if (nr.loose && (ba.v === null || ba.v === undefined)) this.addRefine(st, aa, { n: false });
              else {
                this.addRefine(st, aa, { ne: [ba] });
                if (ba.v === undefined && aa.ty && aa.ty.nullable && aa.ty.kind !== "any") this.addRefine(st, aa, {});
                const ne = st.refine.get(aa.key).ne || [];
                if (aa.ty && aa.ty.lits && !aa.ty.nullable && aa.ty.lits.every((l) => ne.some((x) => x.v === l))) return false;
              }
            }
          }
        }
        return true;
      }
      case "typeof": {
        const eqSense = nr.neg ? !sense : sense;
        const b = single(T(nr.b));
        if (!b || b.k !== "const") return true;
        if (!filt((x) => { const t = this.typeofAtom(x, st); return t === null || (t === b.v) === eqSense; })) return false;
        if (eqSense) ref1(b.v === "undefined" ? { eq: constAtom(undefined) } : b.v === "object" ? { ty: b.v } : { ty: b.v, n: false });
        else if (b.v === "undefined") ref1({ ne: [constAtom(undefined)] });
        return true;
      }
      case "instanceof":
        if (sense) {
          if (!filt((x) => !(x.k === "const" || x.k === "str"))) return false;
          ref1({ t: true, n: false });
        }
        return true;
    }
    return true;
  }
  resolveRef(st, ref, frame) {
    ref = skip(ref);
    if (ts.isIdentifier(ref)) {
      const sym = this.checker.getSymbolAtLocation(ref);
      if (!sym) return null;
      const c = this.cellFor(sym, frame);
      if (!c || !c.key) return null;
      return { get: () => { const v = st.heap.get(c.key); return v && v.atoms ? v : null; }, set: (v) => st.heap.set(c.key, v), isVar: true };
    }
    const base = ref.kind === ts.SyntaxKind.ThisKeyword ? null : this.refVal(st, ref.expression, frame);
    if (!base) return null;
    const a = single(base);
    if (!a) return null;
    let name;
    if (ts.isPropertyAccessExpression(ref)) name = ref.name.text;
    else {
      const kv = ts.isStringLiteralLike(ref.argumentExpression) ? C(ref.argumentExpression.text) : this.checker.getConstantValue(ref.argumentExpression) !== undefined ? C(this.checker.getConstantValue(ref.argumentExpression)) : this.refVal(st, ref.argumentExpression, frame);
      const ka = kv && single(kv);
      if (!ka || ka.k !== "const") return null;
      name = String(ka.v);
    }
    if (a.k === "obj") {
      const r = st.rec(a);
      if (!r || !r.props || !r.props.has(name)) return null;
      return { get: () => st.rec(a).props.get(name), set: (v) => { const q = st.rec(a); const props = new Map(q.props); props.set(name, v); st.setRec(a, { ...q, props }); } };
    }
    if (a.k === "sym") {
      const r = st.heap.get(a.key);
      if (r && r.props && r.props.has(name)) return { get: () => st.heap.get(a.key).props.get(name), set: (v) => { const q = st.heap.get(a.key); const props = new Map(q.props); props.set(name, v); st.heap.set(a.key, { ...q, props }); } };
      const sv = this.symProp(st, a, name, ref);
      return { get: () => sv, set: () => {} };
    }
    return null;
  }
  refVal(st, e, frame) {
    e = skip(e);
    if (e.kind === ts.SyntaxKind.ThisKeyword) return this.thisOf(frame);
    const c = this.resolveRef(st, e, frame);
    return c ? c.get() : null;
  }
  // ---- properties ----
  symProp(st, a, name, ast) {
    let ty = { kind: "any", nullable: true };
    let decl = null;
    if (ast) {
      let s = null;
      try {
        if (ts.isPropertyAccessExpression(ast)) s = this.checker.getSymbolAtLocation(ast.name);
        else if (ts.isBindingElement(ast)) ty = this.describe(this.declaredBindingType(ast));
        if (s && s.name === name) {
          ty = this.describe(this.checker.getTypeOfSymbolAtLocation(s, ast));
          if (s.flags & ts.SymbolFlags.Optional) ty = { ...ty, nullable: true };
          decl = s.valueDeclaration;
        }
      } catch (_) {}
    }
    const id = a.id + "." + name;
    const at = symAtom(id, { label: a.label + "." + name, ty, taint: a.taint || [], base: a, prop: name, user: a.user, decl });
    return mkVal([at]);
  }
  declaredBindingType(el) {
    // type before the default initializer is applied
    try {
      const pt = this.checker.getTypeAtLocation(el.parent);
      const pn = (el.propertyName || el.name).getText();
      const ps = pt.getProperty(pn);
      if (ps) {
        const t = this.checker.getTypeOfSymbolAtLocation(ps, el);
        return t;
      }
    } catch (_) {}
    return this.checker.getTypeAtLocation(el.name);
  }
  propDecl(ast) {
    try {
      if (ast && ts.isPropertyAccessExpression(ast)) {
        const s = this.checker.getSymbolAtLocation(ast.name);
        return s && s.declarations && s.declarations[0];
      }
    } catch (_) {}
    return null;
  }
  getElem(st, base, key, ast, frame, n) {
    const ka = single(key);
    const kk = ka && ka.k === "sym" && st.refine.get(ka.key)?.eq ? st.refine.get(ka.key).eq : ka;
    if (kk && kk.k === "const" && (typeof kk.v === "string" || typeof kk.v === "number")) {
      if (typeof kk.v === "number") {
        // array element
        const outs = [];
        const rest = [];
        for (const a of base.atoms) {
          const r = a.k === "obj" && st.rec(a);
          if (r && r.t === "arr") {
            if (r.elems) {
              const idx = kk.v;
              if (r.elems.slice(0, idx + 1).some((e) => e.m)) outs.push(union(UNDEF, ...r.elems.map((e) => e.v)));
              else outs.push(r.elems[idx] ? r.elems[idx].v : UNDEF);
            } else outs.push(union(r.sum || UNDEF, UNDEF));
          } else rest.push(a);
        }
        let res = outs.length ? [{ k: "ret", v: union(...outs), st }] : [];
        if (rest.length) {
          const o2 = this.getProp(st, mkVal(rest), String(kk.v), ast, frame, n);
          if (!res.length) return o2;
          return o2.map((o) => (o.k === "ret" ? { ...o, v: union(o.v, res[0].v) } : o));
        }
        return res;
      }
      return this.getProp(st, base, kk.v, ast, frame, n);
    }
    if (ka && ka.k === "bi") return this.getProp(st, base, "@@" + ka.name, ast, frame, n);
    // union of constant keys
    if (!ka && key.atoms.length <= 20 && key.atoms.every((x) => x.k === "const" && typeof x.v === "string")) {
      const vs = [];
      for (const x of key.atoms) for (const o of this.getProp(st, base, x.v, ast, frame, n)) if (o.k === "ret") vs.push(o.v);
      return [{ k: "ret", v: vs.length ? union(...vs) : UNDEF, st }];
    }
    const vs = [];
    for (const a of base.atoms) {
      if (a.k === "const" && (a.v === undefined || a.v === null)) continue;
      if (a.k === "obj") {
        const r = st.rec(a);
        if (!r) vs.push(TOP);
        else if (r.t === "arr") vs.push(union(sumOf(r) || UNDEF, UNDEF));
        else if (r.t === "obj") {
          const ks = key.atoms.map((x) => x.key);
          const hit = r.abs.filter((e) => ks.includes(e.key));
          if (hit.length && ka) vs.push(hit[0].v);
          else {
            const all = [...r.props.values(), ...r.abs.map((e) => e.v)];
            // keys that may match the abstract key
            const cand = [];
            for (const [k, v] of r.props) if (key.atoms.some((x) => this.eqAtoms(constAtom(k), x, st) !== false)) cand.push(v);
            for (const e of r.abs) cand.push(e.v);
            if (r.spreads.length || r.open) cand.push(opSym("elem", [mkVal([a]), key]));
            vs.push(union(UNDEF, ...cand));
          }
        } else vs.push(TOP);
      } else if (a.k === "sym") {
        const rec = st.heap.get(a.key);
        const hit = rec && rec.abs && ka && rec.abs.find((e) => e.key === ka.key);
        if (hit) vs.push(hit.v);
        else vs.push(mkVal([symAtom(`${a.id}[${key.key}]`, { label: `${a.label}[${ka ? ka.label || ka.key : "?"}]`, taint: a.taint || [], base: a, keyVal: key, user: a.user, ty: ast && ts.isElementAccessExpression(ast) ? { ...this.tyAt(ast), nullable: true } : { kind: "any", nullable: true } })]));
      } else if (a.k === "ns" || a.k === "bi") vs.push(TOP);
      else vs.push(TOP);
    }
    if (!vs.length) return [{ k: "throw", v: this.typeErr(ast), st }];
    return [{ k: "ret", v: union(...vs), st }];
  }
  typeErr(ast) {
    return S("TypeError@" + (ast ? this.p.loc(ast) : "?"), { label: "TypeError", ty: { kind: "object", nullable: false }, isError: true });
  }
  getProp(st, base, name, ast, frame, n) {
    if (name === "length") {
      const r = this.splitEmpty(st, base);
      if (r) return r;
    }
    const outs = [];
    const vs = [];
    let nullCount = 0;
    for (const a of base.atoms) {
      const r = this.getPropAtom(st, a, name, ast, frame, n);
      if (r === "null") {
        nullCount++;
        continue;
      }
      if (Array.isArray(r)) {
        outs.push(...r);
        continue;
      }
      vs.push(r);
    }
    if (!vs.length && !outs.length) return [{ k: "throw", v: this.typeErr(ast), st }];
    if (vs.length) outs.push({ k: "ret", v: union(...vs), st });
    const at = single(base);
    // a value thrown by user code may be null or undefined
    if (at && at.k === "sym" && at.userErr && this.nullish(at, st) !== false) outs.push({ k: "throw", v: this.typeErr(ast), st: st.clone() });
    if (this.opts.anyThrows && at && (at.k === "sym" || at.k === "top") && ast && this.opts.anyThrows(ast, at, st, this)) {
      if (this.nullish(at, st) !== false) outs.push({ k: "throw", v: this.typeErr(ast), st: st.clone() });
    } else if (this.opts.anyThrows && nullCount && vs.length && this.opts.anyThrows(ast, at, st, this)) outs.push({ k: "throw", v: this.typeErr(ast), st: st.clone() });
    return outs;
  }
  // the length of a list whose elements are all uncertain: none is present, or the first present one is the i-th
  splitEmpty(st, base) {
    const a = single(base);
    const r = a && a.k === "obj" && st.rec(a);
    if (!r || r.t !== "arr" || !r.elems || r.sum || !r.elems.length || r.elems.length > 12 || !r.elems.every((e) => e.m)) return null;
    const outs = [];
    for (let i = 0; i < r.elems.length; i++) {
      const s = st.clone();
      const elems = [{ ...r.elems[i], m: false }, ...r.elems.slice(i + 1)];
      s.setRec(a, { ...r, elems });
      outs.push({ k: "ret", v: elems.length === 1 ? C(1) : S(`len1:${a.key}`, { ty: { kind: "number", nullable: false }, label: "length", lenOf: a, lenMin: 1 }), st: s });
    }
    st.setRec(a, { ...r, elems: [] });
    outs.push({ k: "ret", v: C(0), st });
    return outs;
  }
  // returns Val | "null" | outcomes[]
  getPropAtom(st, a, name, ast, frame, n) {
    switch (a.k) {
      case "const":
        if (a.v === undefined || a.v === null) return "null";
        if (typeof a.v === "string") {
          if (name === "length") return C(a.v.length);
          if (/^\d+$/.test(name)) return C(a.v[Number(name)]);
          return String.prototype[name] !== undefined || name === "@@Symbol.iterator" ? BI("String#" + name) : UNDEF;
        }
        if (["number", "boolean"].includes(typeof a.v) && (typeof a.v === "number" ? Number : Boolean).prototype[name] === undefined) return UNDEF;
        return BI((typeof a.v === "number" ? "Number#" : "Boolean#") + name);
      case "str":
        if (name === "length") return opSym("len", [mkVal([a])], { kind: "number", nullable: false });
        if (String.prototype[name] === undefined && !/^\d+$/.test(name) && name !== "@@Symbol.iterator") return UNDEF;
        return BI("String#" + name);
      case "regex":
        if (name === "source") return C(a.src.replace(/^\/(.*)\/[a-z]*$/s, "$1"));
        if (name === "lastIndex") return st.heap.get("rx:" + a.key) || C(0);
        if (name === "flags" || name === "global") {
          const fl = /[a-z]*$/.exec(a.src)[0];
          return C(name === "flags" ? fl : fl.includes("g"));
        }
        return BI("RegExp#" + name);
      case "fn":
      case "bound":
        if (["call", "apply", "bind"].includes(name)) return BI("Function#" + name);
        {
          const ov = st.heap.get(a.key);
          if (ov && ov.props && ov.props.has(name)) return ov.props.get(name);
        }
        if (name === "name") return C(a.node ? this.fnName(a.node) : "");
        if (name === "length") return S("fn.length", { ty: { kind: "number", nullable: false } });
        return UNDEF;
      case "cls": {
        const ov = st.heap.get(a.key);
        if (ov && ov.props && ov.props.has(name)) return ov.props.get(name);
        for (const m of this.classChain(a.node)) {
          for (const x of m.members)
            if (x.name && x.name.getText && x.name.text === name && x.modifiers && x.modifiers.some((q) => q.kind === ts.SyntaxKind.StaticKeyword)) {
              if (ts.isMethodDeclaration(x)) return F(x, a.scope);
              if (ts.isGetAccessorDeclaration(x)) return this.callFn(st, fnAtom(x, a.scope), mkVal([a]), [], frame, "g" + (n ? n.i : 0), ast);
              if (ts.isPropertyDeclaration(x) && x.initializer) {
                return this.runExpr(st, x.initializer, this.modFrame, mkVal([a]), "static").map((o) => {
                  if (o.k === "ret") {
                    const q = o.st.heap.get(a.key) || newObj();
                    const props = new Map(q.props);
                    props.set(name, o.v);
                    o.st.heap.set(a.key, { ...q, props });
                  }
                  return o;
                });
              }
            }
        }
        if (name === "name") return C(a.node.name ? a.node.name.text : "");
        if (name === "prototype") return S("proto:" + a.key, { label: "prototype", clsNode: a.node });
        return S(a.key + "." + name, { label: (a.node.name ? a.node.name.text : "cls") + "." + name });
      }
      case "ns": {
        let ex = null;
        try {
          ex = this.checker.tryGetMemberInModuleExports(name, a.sym);
          if (!ex) ex = this.checker.getExportsOfModule(a.sym).find((x) => x.name === name);
        } catch (_) {}
        if (!ex) return S(`${a.label}.${name}`, { label: `${a.label}.${name}` });
        const r = this.loadSym(st, ex, this.modFrame, ast, name);
        return r.length === 1 && r[0].k === "ret" && r[0].st === st ? r[0].v : r;
      }
      case "bi":
        return this.biProp(st, a, name, ast);
      case "top":
        return mkVal([topAtom(a.taint)]);
      case "sym": {
        const rec = st.heap.get(a.key);
        if (rec && rec.props && rec.props.has(name)) return rec.props.get(name);
        if (this.opts.onGetProp) {
          const r = this.opts.onGetProp({ st, base: a, name, ast, frame, interp: this });
          if (r) return r;
        }
        if (!(n && n.forCall) && ast && ts.isPropertyAccessExpression(ast)) {
          const d = this.propDecl(ast);
          if (d && ts.isGetAccessorDeclaration(d) && d.body && this.p.pkgOf(d.getSourceFile().fileName) && !this.stub(d)) return this.callFn(st, fnAtom(d, null), mkVal([a]), [], frame, "g" + (n ? n.i : 0), ast);
        }
        // well-known methods of primitive / collection types
        const ty = a.ty || {};
        let tf = this.typeofAtom(a, st);
        if (tf === null && ast && ts.isPropertyAccessExpression(ast)) {
          // flow-narrowed static type of the receiver
          const k = this.tyAt(ast.expression);
          if ((k.kind === "string" || k.kind === "number") && !k.nullable) tf = k.kind;
        }
        if (tf === "string" && String.prototype[name] !== undefined && name !== "length") return BI("String#" + name);
        if (tf === "number" && Number.prototype[name] !== undefined) return BI("Number#" + name);
        if ((ty.kind === "array" || builtins.isArrayAtom(this, st, a) === true) && Array.prototype[name] !== undefined && name !== "length") return BI("Array#" + name);
        if (ty.kind === "promise" && ["then", "catch", "finally"].includes(name)) return BI("Promise#" + name);
        if (["call", "apply", "bind"].includes(name) && ty.kind === "function") return BI("Function#" + name);
        return this.symProp(st, a, name, ast);
      }
      case "obj": {
        const r = st.rec(a);
        if (!r) return TOP;
        return this.recProp(st, a, r, name, ast, frame, n);
      }
    }
    return TOP;
  }
  recProp(st, a, r, name, ast, frame, n) {
    switch (r.t) {
      case "arr":
        if (name === "length") {
          if (r.elems && !r.elems.some((e) => e.m)) return C(r.elems.length);
          const least = r.elems && !r.sum ? r.elems.filter((e) => !e.m).length : 0;
          if (least) return S(`len${least}:${a.key}`, { ty: { kind: "number", nullable: false }, label: "length", lenOf: a, lenMin: least });
          return S(`len:${a.key}`, { ty: { kind: "number", nullable: false }, label: "length", lenOf: a });
        }
        if (r.props && r.props.has(name)) return r.props.get(name);
        if (/^\d+$/.test(name)) return this.getElem(st, mkVal([a]), C(Number(name)), ast, frame, n)[0].v;
        if (name === "@@Symbol.iterator") return BI("Array#values");
        if (name === "next" && r.isIter) return BI("Array#next");
        return name === "subarray" && r.bytes ? BI("Array#slice") : Array.prototype[name] !== undefined ? BI("Array#" + name) : UNDEF;
      case "map":
      case "set": {
        if (name === "size") {
          const es = [...r.entries.values()];
          if (!r.open && !es.some((e) => e.m)) return C(es.length + (this.opts.sizeBias || 0));
          return S(`size:${a.key}`, { ty: { kind: "number", nullable: false }, label: "size" });
        }
        return BI((r.t === "map" ? "Map#" : "Set#") + name);
      }
      case "promise":
        return ["then", "catch", "finally"].includes(name) ? BI("Promise#" + name) : r.props && r.props.has(name) ? r.props.get(name) : name.startsWith("@@") ? UNDEF : BI("Promise#" + name);
      case "gen":
        if (name.startsWith("@@")) return name === (r.isAsync ? "@@Symbol.asyncIterator" : "@@Symbol.iterator") ? BI("Gen#self") : UNDEF;
        return BI("Gen#" + name);
      case "obj": {
        if (r.ext === "Proxy" && r.handler) {
          const h = single(r.handler), hr = h && h.k === "obj" && st.rec(h);
          const g = hr && hr.props && hr.props.get("get");
          if (g && g !== UNDEF) return this.call(st, g, r.handler, [r.proxyOf, C(name), mkVal([a])], ast, frame, "px" + (n ? n.i : 0), null);
          if (hr) return this.getProp(st, r.proxyOf, name, ast, frame, n);
        }
        if (r.props.has(name)) return r.props.get(name);
        if (r.getters && r.getters.has(name)) {
          const g = r.getters.get(name).atoms[0];
          return this.callFn(st, g, mkVal([a]), [], frame, "g" + (n ? n.i : 0), ast);
        }
        if (r.cls) {
          const m = this.findMember(r.cls, name);
          if (m) {
            if (m.kind === "get") {
              if (this.opts.onGetter) {
                const q = this.opts.onGetter({ st, name, node: m.node, ast, frame, interp: this });
                if (q) return q;
              }
              return this.callFn(st, fnAtom(m.node, r.clsScope || null), mkVal([a]), [], frame, "g" + (n ? n.i : 0), ast);
            }
            return F(m.node, r.clsScope || null);
          }
        }
        // abstract keys that may equal name
        const cand = r.abs.filter((e) => this.eqAtoms(e.atom, constAtom(name), st) !== false).map((e) => e.v);
        const excl = r.excl && r.excl.includes(name);
        if (r.spreads.length && !excl) {
          // later spread sources win; any source may supply the property
          const vs = [...cand];
          for (const s of r.spreads) for (const x of s.atoms) {
            if (x.k === "const") continue;
            const v = x.k === "sym" ? this.symProp(st, x, name, null) : TOP;
            vs.push(v);
          }
          if (vs.length) return union(...vs);
        }
        if (r.open) return union(S(`${a.id}.${name}`, { label: `${r.label || a.id}.${name}`, ty: ast ? this.safePropTy(ast) : undefined }), ...cand);
        if (r.ext) return this.extObjProp(st, a, r, name, ast);
        if (["hasOwnProperty", "toString", "valueOf"].includes(name)) return BI("Object#" + name);
        if (name === "constructor" && r.cls) return K(r.cls, null);
        return cand.length ? union(UNDEF, ...cand) : UNDEF;
      }
    }
    return TOP;
  }
  safePropTy(ast) {
    if (ts.isPropertyAccessExpression(ast)) {
      const s = this.checker.getSymbolAtLocation(ast.name);
      if (s) {
        try {
          return this.describe(this.checker.getTypeOfSymbolAtLocation(s, ast));
        } catch (_) {}
      }
    }
    return { kind: "any", nullable: true };
  }
  extObjProp(st, a, r, name, ast) {
    return mkVal([symAtom(`${a.id}.${name}`, { label: `${r.ext}.${name}`, ty: ast ? this.safePropTy(ast) : undefined, extObj: a })]);
  }
  biProp(st, a, name, ast) {
    const full = a.name + "." + name;
    return builtins.biProp(this, st, a, name, full, ast);
  }
  classChain(node) {
    const out = [];
    let c = node;
    let g = 0;
    while (c && g++ < 20) {
      out.push(c);
      const b = this.baseClass(c);
      c = b && b.node;
    }
    return out;
  }
  baseClass(node) {
    const h = node.heritageClauses && node.heritageClauses.find((x) => x.token === ts.SyntaxKind.ExtendsKeyword);
    if (!h) return null;
    const e = h.types[0].expression;
    let s = this.checker.getSymbolAtLocation(e);
    if (s && s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
    const d = s && s.valueDeclaration;
    if (d && ts.isClassDeclaration(d) && this.p.pkgOf(d.getSourceFile().fileName)) return { node: d, name: d.name && d.name.text };
    return { node: null, name: e.getText() };
  }
  findMember(cls, name) {
    for (const c of this.classChain(cls)) {
      for (const x of c.members) {
        if (!x.name) continue;
        const nm = ts.isComputedPropertyName(x.name) ? (x.name.expression.getText() === "Symbol.iterator" ? "@@Symbol.iterator" : x.name.expression.getText() === "Symbol.asyncIterator" ? "@@Symbol.asyncIterator" : null) : x.name.text;
        if (nm !== name) continue;
        if (x.modifiers && x.modifiers.some((q) => q.kind === ts.SyntaxKind.StaticKeyword)) continue;
        if (ts.isMethodDeclaration(x) && x.body) return { kind: "method", node: x };
        if (ts.isGetAccessorDeclaration(x) && x.body) return { kind: "get", node: x };
      }
    }
    return null;
  }
  findSetter(cls, name) {
    for (const c of this.classChain(cls)) for (const x of c.members) if (ts.isSetAccessorDeclaration(x) && x.body && x.name.text === name) return x;
    return null;
  }
  setProp(st, base, key, v, ast, frame, n) {
    if (this.opts.onSetProp && !(n && n.init)) {
      const r = this.opts.onSetProp({ st, base, key, v, ast, frame, interp: this });
      if (r === false) return [{ k: "ret", v, st }];
    }
    const strong = base.atoms.length === 1;
    let ka = single(key);
    if (ka && ka.k === "sym" && st.refine.get(ka.key)?.eq) ka = st.refine.get(ka.key).eq;
    if (ka && ka.k === "bi") ka = single(C("@@" + ka.name));
    const outs = [];
    for (const a of base.atoms) {
      if (a.k === "regex") {
        if (ka && ka.k === "const" && ka.v === "lastIndex") st.heap.set("rx:" + a.key, v);
        continue;
      }
      if (a.k === "const") {
        if (a.v === undefined || a.v === null) {
          if (strong) return [{ k: "throw", v: this.typeErr(ast), st }];
        }
        continue;
      }
      if (!["obj", "sym", "fn", "cls", "bound"].includes(a.k) && !(a.k === "bi" && a.name === "globalThis")) continue;
      let r = st.heap.get(a.key);
      if (!r) r = { ...newObj(), overlay: true };
      if (r.t === "arr") {
        if (ka && ka.k === "const" && typeof ka.v === "number" && r.elems && strong) {
          const elems = r.elems.slice();
          while (elems.length < ka.v) elems.push({ v: UNDEF, m: false });
          elems[ka.v] = { v, m: false };
          st.heap.set(a.key, { ...r, elems });
        } else if (ka && ka.k === "const" && ka.v === "length") {
          st.heap.set(a.key, ka && isConst(v) && constOf(v) === 0 ? { ...r, elems: [], sum: null } : { ...r, elems: null, sum: sumOf(r) });
        } else if (ka && ka.k === "const" && typeof ka.v === "string") {
          const props = new Map(r.props);
          props.set(ka.v, v);
          st.heap.set(a.key, { ...r, props });
        } else st.heap.set(a.key, { ...r, elems: null, sum: unionOpt(sumOf(r), v) });
        continue;
      }
      if (r.t !== "obj") {
        if (ka && ka.k === "const") {
          const props = new Map(r.props || []);
          props.set(String(ka.v), v);
          st.heap.set(a.key, { ...r, props });
        }
        continue;
      }
      if (ka && ka.k === "const") {
        const name = String(ka.v);
        if (r.cls) {
          const s = this.findSetter(r.cls, name);
          if (s) {
            for (const o of this.callFn(st, fnAtom(s, null), mkVal([a]), [v], frame, "s" + (n ? n.i : 0), ast)) outs.push(o.k === "ret" ? { ...o, v } : o);
            continue;
          }
        }
        const props = new Map(r.props);
        const old = props.get(name);
        if (!strong && (old || r.overlay)) props.set(name, old ? union(old, v) : v);
        else {
          props.delete(name);
          props.set(name, v);
        }
        const q = { ...r, props };
        if (q.excl && q.excl.includes(name)) q.excl = q.excl.filter((x) => x !== name);
        st.heap.set(a.key, q);
      } else if (!ka && key.atoms.every((x) => x.k === "const") && key.atoms.length <= 20) {
        const props = new Map(r.props);
        for (const x of key.atoms) {
          const nm = String(x.v);
          props.set(nm, props.has(nm) ? union(props.get(nm), v) : union(v, UNDEF));
        }
        st.heap.set(a.key, { ...r, props });
      } else {
        const kk = ka || { key: key.key, k: "union" };
        const abs = r.abs.filter((e) => e.key !== kk.key);
        const old = r.abs.find((e) => e.key === kk.key);
        abs.push({ key: kk.key, atom: ka || topAtom(), v: strong || !old ? v : union(old.v, v) });
        st.heap.set(a.key, { ...r, abs });
      }
    }
    if (outs.length) return outs;
    return [{ k: "ret", v, st }];
  }
  delProp(st, a, key, strong) {
    if (!["obj", "sym"].includes(a.k)) return;
    const r = st.heap.get(a.key);
    const ka = single(key);
    if (a.k === "sym" && ka && ka.k === "const") {
      const q = r || { ...newObj(), overlay: true };
      const props = new Map(q.props);
      props.set(String(ka.v), UNDEF);
      st.heap.set(a.key, { ...q, props });
      return;
    }
    if (!r || r.t !== "obj") return;
    if (ka && ka.k === "const") {
      const props = new Map(r.props);
      const nm = String(ka.v);
      if (strong) {
        props.delete(nm);
        if (r.spreads.length || r.open) props.set(nm, UNDEF);
      } else if (props.has(nm)) props.set(nm, union(props.get(nm), UNDEF));
      st.heap.set(a.key, { ...r, props });
    } else if (ka) {
      st.heap.set(a.key, { ...r, abs: r.abs.filter((e) => e.key !== ka.key) });
    }
  }
  spreadInto(st, target, src, ast) {
    for (const a of src.atoms) {
      if (a.k === "const" || a.k === "fn" || a.k === "str") continue; // nothing enumerable
      const r0 = st.rec(target);
      const maybe = src.atoms.length > 1;
      if (a.k === "obj") {
        const s = st.rec(a);
        if (!s) continue;
        if (s.t === "arr") continue;
        if (s.t !== "obj") continue;
        const props = new Map(r0.props);
        for (const [k, v] of s.props) {
          const old = props.get(k);
          if (maybe) props.set(k, old ? union(old, v) : union(v, UNDEF));
          else {
            props.delete(k);
            props.set(k, s.maybeAbsent && s.maybeAbsent.has(k) && old ? union(old, v) : v);
          }
        }
        let spreads = r0.spreads;
        if (s.spreads.length || s.open) {
          // unknown additional keys may overwrite what is already there
          const add = s.open ? [mkVal([a])] : [];
          spreads = spreads.concat(s.spreads, add);
          for (const [k, v] of props)
            if (!s.props.has(k) && !(s.excl && s.excl.includes(k))) {
              const extra = [];
              for (const sp of s.spreads) for (const x of sp.atoms) if (x.k === "sym") extra.push(this.symProp(st, x, k, null));
              if (s.open) extra.push(S(`${a.id}.${k}`, { label: `${s.label || a.id}.${k}` }));
              if (extra.length) props.set(k, union(v, ...extra));
            }
        }
        const abs = r0.abs.filter((e) => !s.abs.some((f) => f.key === e.key)).concat(s.abs);
        // abstract keys may overwrite constants
        if (s.abs.length) for (const [k, v] of props) if (!s.props.has(k)) {
          const hit = s.abs.filter((e) => this.eqAtoms(e.atom, constAtom(k), st) !== false);
          if (hit.length) props.set(k, union(v, ...hit.map((e) => e.v)));
        }
        const q = { ...r0, props, spreads, abs };
        if (s.excl && !r0.spreads.length && !r0.props.size) q.excl = s.excl;
        st.setRec(target, q);
      } else if (a.k === "sym" || a.k === "top") {
        const props = new Map(r0.props);
        for (const [k, v] of props) {
          const sp = a.k === "sym" ? this.overlayProp(st, a, k) : TOP;
          props.set(k, union(v, sp));
        }
        const ov = a.k === "sym" && st.heap.get(a.key);
        if (ov && ov.props) for (const [k, v] of ov.props) props.set(k, v);
        st.setRec(target, { ...r0, props, spreads: r0.spreads.concat([mkVal([a])]) });
      }
    }
  }
  overlayProp(st, a, k) {
    const r = st.heap.get(a.key);
    if (r && r.props && r.props.has(k)) return r.props.get(k);
    return this.symProp(st, a, k, null);
  }
  keysOf(st, v) {
    const a = single(v);
    if (a && a.k === "obj") {
      const r = st.rec(a);
      if (r && r.t === "obj" && !r.spreads.length && !r.open && !r.ext) {
        const el = [];
        for (const [k, x] of r.props) el.push({ v: C(k), m: false, val: x });
        for (const e of r.abs) el.push({ v: mkVal([e.atom]), m: false, val: e.v });
        return { elems: el };
      }
      if (r && r.t === "obj") {
        return { sum: opSym("keys", [v], { kind: "string", nullable: false }), valSum: TOP, known: r };
      }
      if (r && r.t === "arr") return { sum: S("num#", { ty: { kind: "number", nullable: false } }), valSum: sumOf(r) || UNDEF };
    }
    if (a && a.k === "const") return { elems: [] };
    if (a && a.k === "sym") {
      const key = S(`key(${a.id})`, { label: `key(${a.label})`, ty: { kind: "string", nullable: false }, taint: a.taint || [] });
      return { sum: key, valSum: S(`${a.id}[${key.key}]`, { label: `${a.label}[*]`, taint: a.taint || [], base: a, keyVal: key, user: a.user }) };
    }
    return { sum: opSym("keys", [v], { kind: "string", nullable: false }), valSum: TOP };
  }
  // ---- operators ----
  binOp(st, o, a, b, ast, frame) {
    const ret = (v) => [{ k: "ret", v, st }];
    switch (o) {
      case "===":
      case "==": {
        const r = this.eqVals(a, b, st, o === "==");
        if (r !== null) return ret(C(r));
        return ret(opSym(o === "==" ? "==" : "===", a.key < b.key ? [a, b] : [b, a], { kind: "boolean", nullable: false }));
      }
      case "!==":
      case "!=": {
        const r = this.eqVals(a, b, st, o === "!=");
        if (r !== null) return ret(C(!r));
        return ret(opSym("!", [opSym(o === "!=" ? "==" : "===", a.key < b.key ? [a, b] : [b, a], { kind: "boolean", nullable: false })], { kind: "boolean", nullable: false }));
      }
      case "instanceof":
        return ret(this.instanceOf(st, a, b));
      case "in": {
        const k = single(a);
        let t = false, f = false;
        for (const x of b.atoms) {
          if (x.k === "const") {
            if (x.v === undefined || x.v === null || typeof x.v !== "object") {
              if (b.atoms.length === 1) return [{ k: "throw", v: this.typeErr(ast), st }];
              continue;
            }
          }
          if (x.k === "str") return [{ k: "throw", v: this.typeErr(ast), st }];
          if (x.k === "bi" && x.name === "process" && k && k.k === "const" && this.opts.globals && this.opts.globals.process) {
            if (["env", "version", "versions"].includes(k.v)) t = true;
            else f = true;
            continue;
          }
          if (x.k === "obj" && k) {
            const r = st.rec(x);
            if (r && r.t === "obj") {
              if (k.k === "const" && r.props.has(String(k.v))) {
                const pv = r.props.get(String(k.v));
                t = true;
                continue;
              }
              if (r.abs.some((e) => e.key === k.key)) {
                t = true;
                continue;
              }
              if (!r.spreads.length && !r.open && !r.ext) {
                if (k.k === "const" && !(r.cls && this.findMember(r.cls, String(k.v))) && !r.abs.some((e) => this.eqAtoms(e.atom, k, st) !== false)) {
                  f = true;
                  continue;
                }
              }
            }
          }
          t = f = true;
        }
        const outs = [];
        if (this.opts.anyThrows && ast && this.opts.anyThrows(ast, single(b), st, this)) {
          const bb = single(b);
          if (!bb || (bb.k === "sym" && !["object", "array", "function"].includes(this.typeofAtom(bb, st)) )|| bb.k === "top") outs.push({ k: "throw", v: this.typeErr(ast), st: st.clone() });
        }
        outs.push({ k: "ret", v: t && f ? opSym("in", [a, b], { kind: "boolean", nullable: false }) : C(t), st });
        return outs;
      }
      case "+": {
        const x = single(a), y = single(b);
        if (x && y && x.k === "const" && y.k === "const") return ret(C(x.v + y.v));
        const isS = (z) => z.atoms.some((q) => (q.k === "const" && typeof q.v === "string") || q.k === "str" || this.typeofAtom(q, st) === "string");
        if (isS(a) || isS(b)) return ret(strVal([a, b]));
        if ((x && x.k === "sym" && x.id === "num#") || (y && y.k === "sym" && y.id === "num#")) return ret(S("num#", { ty: { kind: "number", nullable: false } }));
        if (a.atoms.every((q) => q.k === "const" && typeof q.v === "number") && b.atoms.every((q) => q.k === "const" && typeof q.v === "number")) {
          const l = [];
          for (const p of a.atoms) for (const q of b.atoms) l.push(constAtom(p.v + q.v));
          return ret(mkVal(l));
        }
        return ret(opSym("+", [a, b]));
      }
      default: {
        const x = single(a), y = single(b);
        if (x && y && x.k === "const" && y.k === "const") {
          const p = x.v, q = y.v;
          switch (o) {
            case "-": return ret(C(p - q));
            case "*": return ret(C(p * q));
            case "/": return ret(C(p / q));
            case "%": return ret(C(p % q));
            case "**": return ret(C(p ** q));
            case "<": return ret(C(p < q));
            case "<=": return ret(C(p <= q));
            case ">": return ret(C(p > q));
            case ">=": return ret(C(p >= q));
            case "|": return ret(C(p | q));
            case "&": return ret(C(p & q));
            case "^": return ret(C(p ^ q));
            case "<<": return ret(C(p << q));
            case ">>": return ret(C(p >> q));
            case ">>>": return ret(C(p >>> q));
          }
        }
        if (x && y && x.k === "sym" && x.lenMin && y.k === "const" && typeof y.v === "number") {
          if ((o === ">" && x.lenMin > y.v) || (o === ">=" && x.lenMin >= y.v)) return ret(V.TRUE);
          if ((o === "<" && x.lenMin >= y.v) || (o === "<=" && x.lenMin > y.v)) return ret(V.FALSE);
        }
        if (["<", "<=", ">", ">="].includes(o)) {
          // normalise to < and its negation so that repeated tests correlate
          if (o === ">") return ret(opSym("<", [b, a], { kind: "boolean", nullable: false }));
          if (o === "<") return ret(opSym("<", [a, b], { kind: "boolean", nullable: false }));
          if (o === "<=") return ret(opSym("!", [opSym("<", [b, a], { kind: "boolean", nullable: false })], { kind: "boolean", nullable: false }));
          return ret(opSym("!", [opSym("<", [a, b], { kind: "boolean", nullable: false })], { kind: "boolean", nullable: false }));
        }
        if ((x && x.k === "sym" && x.id === "num#") || (y && y.k === "sym" && y.id === "num#")) return ret(S("num#", { ty: { kind: "number", nullable: false } }));
        return ret(opSym(o, [a, b], { kind: "number", nullable: false }));
      }
    }
  }
  instanceOf(st, a, b) {
    const c = single(b);
    let t = false, f = false;
    for (const x of a.atoms) {
      let r = null;
      if (x.k === "const" || x.k === "str") r = false;
      else if (x.k === "obj") {
        const rec = st.rec(x);
        if (rec && c) {
          if (c.k === "cls") {
            if (rec.t === "obj" && rec.cls) r = this.classChain(rec.cls).includes(c.node);
            else r = rec.t === "obj" && (rec.open || rec.overlay) ? null : false;
          } else if (c.k === "bi") {
            if (c.name === "Promise") r = rec.t === "promise" ? (rec.thenable ? false : true) : rec.t === "obj" && rec.open ? null : false;
            else if (c.name === "Array") r = rec.t === "arr";
            else if (c.name === "Map") r = rec.t === "map";
            else if (c.name === "Set") r = rec.t === "set";
            else if (c.name === "Object") r = true;
            else if (c.name === "Error") r = rec.cls ? this.isErrorCls(rec.cls) : rec.ext ? /Error$/.test(rec.ext) : rec.open ? null : false;
            else if (/Error$/.test(c.name)) r = rec.ext === c.name ? true : rec.cls ? null : false;
            else r = rec.ext ? rec.ext === c.name : false;
          } else if (c.k === "sym" && rec.extIs && /^ext:/.test(c.id || "")) r = rec.extIs.includes(c.id.replace(/^ext:/, "").split(".").pop());
          else r = null;
        }
      } else if (x.k === "fn" || x.k === "cls") r = c && c.k === "bi" && (c.name === "Function" || c.name === "Object") ? true : false;
      else if (x.k === "sym") {
        const rf = st.refine.get(x.key);
        if (c && c.k === "bi" && c.name === "Promise") {
          if (x.ty && x.ty.kind === "promise") r = null;
        }
        if (this.nullish(x, st) === true) r = false;
        const tf = this.typeofAtom(x, st);
        if ((tf && ["string", "number", "boolean"].includes(tf)) || (x.ty && ["string", "number", "boolean"].includes(x.ty.kind))) r = false;
        if (x.isError && c && c.k === "bi" && c.name === "Error") r = true;
        if (rf && rf.io && c && rf.io[c.key] !== undefined) r = rf.io[c.key];
      }
      if (r === null) t = f = true;
      else if (r) t = true;
      else f = true;
    }
    if (t && f) return opSym("instanceof", [a, b], { kind: "boolean", nullable: false });
    return C(t);
  }
  isErrorCls(cls) {
    const chain = this.classChain(cls);
    const b = this.baseClass(chain[chain.length - 1]);
    return !!(b && b.name && /Error$/.test(b.name));
  }
  unOp(st, o, a) {
    const x = single(a);
    switch (o) {
      case "typeof": {
        const ts_ = new Set(a.atoms.map((q) => this.typeofAtom(q, st)));
        if (ts_.size === 1 && !ts_.has(null)) return C([...ts_][0]);
        return opSym("typeof", [a], { kind: "string", nullable: false });
      }
      case "-":
        if (x && x.k === "const") return C(-x.v);
        return opSym("neg", [a], { kind: "number", nullable: false });
      case "+":
        if (x && x.k === "const") return C(+x.v);
        return opSym("num", [a], { kind: "number", nullable: false });
      case "~":
        return opSym("~", [a], { kind: "number", nullable: false });
      default:
        return opSym(o, [a]);
    }
  }
  // ---- calls ----
  calleeInfo(ast) {
    if (!ast || !(ts.isCallExpression(ast) || ts.isNewExpression(ast))) return null;
    const cache = this.p.sigCache || (this.p.sigCache = new Map());
    if (cache.has(ast)) return cache.get(ast);
    let r = null;
    try {
      const sig = this.checker.getResolvedSignature(ast);
      if (sig) {
        const d = sig.declaration;
        r = { sig, decl: d, ret: this.describe(this.checker.getReturnTypeOfSignature(sig)) };
      }
    } catch (_) {}
    cache.set(ast, r);
    return r;
  }
  // the concrete implementation of a resolved declaration (overloads → body)
  implOf(d) {
    if (!d) return null;
    if (d.body) return d;
    const s = d.symbol;
    if (s && s.declarations) return s.declarations.find((x) => x.body) || null;
    return null;
  }
  call(st, callee, thisV, args, ast, frame, site, name) {
    this.stats.calls++;
    const res = [];
    const alts = callee.atoms.filter((a) => !(a.k === "const"));
    if (!alts.length) return [{ k: "throw", v: this.typeErr(ast), st }];
    alts.forEach((a, i) => {
      const s = i === alts.length - 1 ? st : st.clone();
      res.push(...this.callAtom(s, a, thisV, args, ast, frame, site, name));
    });
    return res;
  }
  callAtom(st, a, thisV, args, ast, frame, site, name) {
    if (a.k === "bound") return this.callAtom(st, a.target, a.thisv || thisV, a.bargs.concat(args), ast, frame, site, name);
    const ci = this.calleeInfo(ast);
    const info = { st, callee: a, thisV, args, ast, frame, site, name, label: a.label || (a.k === "bi" ? a.name : a.k === "fn" ? this.fnName(a.node) : null), decl: ci && ci.decl, ret: ci && ci.ret, interp: this };
    if (a.k === "fn") {
      info.fn = a.node;
      if (a.thisv) info.thisV = a.thisv;
      if (a.bargs) info.args = a.bargs.concat(args);
      const sb = this.stub(a.node, info);
      if (sb) return this.normOuts(sb, st);
      if (this.opts.onCall) {
        const r = this.opts.onCall(info);
        if (r) return this.normOuts(r, st);
      }
      const outs = this.callFn(st, a, thisV, args, frame, site, ast);
      if (this.opts.afterCall) for (const o of outs) this.opts.afterCall({ ...info, st: o.st, out: o });
      return outs;
    }
    if (this.opts.onCall) {
      const r = this.opts.onCall(info);
      if (r) return this.normOuts(r, st);
    }
    if (a.k === "bi") {
      const r = builtins.call(this, st, a.name, thisV, args, ast, frame, site, info);
      if (r) return this.normOuts(r, st);
    }
    if (a.k === "cls") return this.construct(st, mkVal([a]), args, ast, frame, site);
    // resolve statically through the type checker when the receiver is opaque
    if ((a.k === "sym" || a.k === "top") && ci && ci.decl) {
      const impl = this.implOf(ci.decl);
      if (impl && isFunctionLike(impl) && this.p.pkgOf(impl.getSourceFile().fileName)) {
        const owner = ownerOf(impl);
        const topLevel = ts.isSourceFile(owner) || (ts.isMethodDeclaration(impl) && ts.isClassLike(impl.parent));
        if (topLevel) {
          const sb = this.stub(impl, info);
          if (sb) return this.normOuts(sb, st);
          if (!this.opts.noInline?.(impl)) return this.callFn(st, fnAtom(impl, null), thisV, args, frame, site, ast);
        }
      }
    }
    return this.extCall(st, info);
  }
  normOuts(r, st) {
    if (Array.isArray(r)) return r;
    if (r && r.atoms) return [{ k: "ret", v: r, st }];
    return [r];
  }
  // unknown external callee
  extCall(st, info) {
    this.stats.extCalls++;
    const { ast, frame, site, args } = info;
    const label = info.label || info.name || "ext";
    const id = `r:${label}@${frame ? frame.id : ""}:${site}`;
    const ty = info.ret || { kind: "any", nullable: true };
    const a = info.callee;
    const outs = [];
    const taint = new Set(a.taint || []);
    if (this.opts.taintThroughExt) for (const x of args) for (const t of taintOf(x)) taint.add(t);
    const throws = this.opts.mayThrow ? this.opts.mayThrow(info) : undefined;
    const mayThrow = throws === undefined ? !!a.user : throws;
    if (mayThrow) outs.push({ k: "throw", v: S("err:" + id, { label: "error from " + label, ty: { kind: "any", nullable: true }, userErr: true }), st: st.clone() });
    // closures handed to unknown code may be invoked by it
    let v;
    if (ty.kind === "promise") {
      const mr = this.opts.mayReject ? this.opts.mayReject(info) : undefined;
      const rec = this.promRec("ext", { token: id, mayReject: mr === undefined ? true : mr, label });
      rec.origin = ast;
      v = this.alloc(st, "p:" + id, rec);
    } else {
      v = this.fresh(st, id, { label: label + "()", ty, taint: [...taint].sort(), user: !!a.user, callArgs: args, callThis: info.thisV });
    }
    if (this.opts.invokeEscaping) {
      const r = this.opts.invokeEscaping(info, v);
      if (r) return r;
    }
    outs.push({ k: "ret", v, st });
    return outs;
  }
  construct(st, callee, args, ast, frame, site) {
    const res = [];
    const alts = callee.atoms;
    alts.forEach((a, i) => {
      const s = i === alts.length - 1 ? st : st.clone();
      res.push(...this.constructAtom(s, a, args, ast, frame, site));
    });
    return res;
  }
  constructAtom(st, a, args, ast, frame, site) {
    const info = { st, callee: a, thisV: UNDEF, args, ast, frame, site, isNew: true, name: a.k === "cls" ? (a.node.name ? a.node.name.text : null) : a.k === "bi" ? a.name : a.label, label: a.label, interp: this };
    if (this.opts.onNew) {
      const r = this.opts.onNew(info);
      if (r) return this.normOuts(r, st);
    }
    const id = `n:${frame ? frame.id : ""}:${site}:${a.k === "cls" ? nid(a.node) : a.key}`;
    if (a.k === "cls") {
      const rec = newObj(a.node);
      rec.clsScope = a.scope;
      const ov = this.alloc(st, id, rec);
      return this.runCtor(st, a.node, a.scope, ov, args, frame, site, ast).map((o) => (o.k === "ret" ? { ...o, v: ov } : o));
    }
    if (a.k === "bi") {
      const r = builtins.construct(this, st, a.name, args, id, ast, frame, site);
      if (r) return this.normOuts(r, st);
    }
    const nm = (a.label || a.name || "Ext").replace(/^ext:/, "");
    const rec = { ...newObj(), ext: nm, label: nm, ctorArgs: args };
    const v = this.alloc(st, id, rec);
    return [{ k: "ret", v, st }];
  }
  runCtor(st, cls, scope, ov, args, frame, site, ast) {
    const ctor = cls.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
    if (ctor) return this.callFn(st, fnAtom(ctor, scope), ov, args, frame, "c" + site, ast);
    const b = this.baseClass(cls);
    let outs = [{ k: "ret", v: UNDEF, st }];
    if (b) {
      if (b.node) outs = this.runCtor(st, b.node, null, ov, args, frame, site + "b", ast);
      else this.extSuper(st, ov, b.name, args);
    }
    const res = [];
    for (const o of outs) {
      if (o.k !== "ret") res.push(o);
      else res.push(...this.initFields(o.st, cls, ov, frame, scope));
    }
    return res;
  }
  extSuper(st, ov, name, args) {
    const a = ov.atoms[0];
    const r = st.rec(a);
    const props = new Map(r.props);
    if (/Error$/.test(name)) {
      if (args[0]) props.set("message", args[0]);
      props.set("stack", S("stack", { ty: { kind: "string", nullable: false } }));
    }
    st.setRec(a, { ...r, props, ext: name });
  }
  enclosingClass(frame) {
    let f = frame;
    while (f) {
      let n = f.node;
      if (n && n.parent && ts.isClassLike(n.parent)) return n.parent;
      f = f.parent;
    }
    return null;
  }
  initFields(st, cls, ov, frame, scope) {
    let states = [st];
    const res = [];
    for (const m of cls.members) {
      if (!ts.isPropertyDeclaration(m) || (m.modifiers && m.modifiers.some((q) => q.kind === ts.SyntaxKind.StaticKeyword || q.kind === ts.SyntaxKind.DeclareKeyword))) continue;
      const name = m.name.text;
      if (name === undefined) continue;
      const next = [];
      for (const s of states) {
        if (!m.initializer) {
          const a = ov.atoms[0];
          const r = s.rec(a);
          if (!r.props.has(name)) {
            const props = new Map(r.props);
            props.set(name, UNDEF);
            s.setRec(a, { ...r, props });
          }
          next.push(s);
          continue;
        }
        for (const o of this.runExpr(s, m.initializer, scope || this.modFrame, ov, "fi")) {
          if (o.k === "ret") {
            this.setProp(o.st, ov, C(name), o.v, m, frame, { init: true });
            next.push(o.st);
          } else res.push(o);
        }
      }
      states = next;
    }
    for (const s of states) res.push({ k: "ret", v: UNDEF, st: s });
    return res;
  }
  fieldInit(st, frame) {
    const cls = this.enclosingClass(frame);
    if (!cls) return [{ k: "ret", v: UNDEF, st }];
    return this.initFields(st, cls, this.thisOf(frame), frame, frame.parent);
  }
  superCall(st, frame, args, n) {
    const cls = this.enclosingClass(frame);
    const b = this.baseClass(cls);
    const ov = this.thisOf(frame);
    if (b && b.node) return this.runCtor(st, b.node, null, ov, args, frame, "sup" + n.i, n.ast);
    if (b && single(ov) && single(ov).k === "obj") this.extSuper(st, ov, b.name, args);
    return [{ k: "ret", v: UNDEF, st }];
  }
  // ---- promises ----
  mkPromise(st, id, s, f) {
    return this.alloc(st, id, this.promRec(s, f));
  }
  isPromiseAtom(st, a) {
    if (a.k === "obj") {
      const r = st.rec(a);
      return !!(r && r.t === "promise");
    }
    return false;
  }
  awaitVal(st, v, ast, frame) {
    const outs = [];
    const alts = v.atoms;
    alts.forEach((a, i) => {
      const s = i === alts.length - 1 ? st : st.clone();
      outs.push(...this.awaitAtom(s, a, ast, frame));
    });
    return this.reduceOuts(outs);
  }
  awaitAtom(st, a, ast, frame) {
    if (this.opts.onAwait) {
      const r = this.opts.onAwait({ st, atom: a, ast, frame, interp: this });
      if (r) return this.normOuts(r, st);
    }
    if (a.k === "obj") {
      const r = st.rec(a);
      if (r && r.t === "promise") return this.force(st, a, frame, true);
      if (r && r.t === "obj" && r.props.has("then")) {
        // thenable
        return [{ k: "ret", v: S("awaited(" + a.id + ")"), st }];
      }
      return [{ k: "ret", v: mkVal([a]), st }];
    }
    if (a.k === "sym" || a.k === "top") {
      const id = a.k === "sym" ? a.id : "top";
      const ty = a.ty || {};
      const prim = ["string", "number", "boolean", "nullish"].includes(ty.kind);
      const outs = [];
      if (!prim && (a.user || ty.kind === "promise" || this.opts.awaitAnyThrows)) {
        if (this.opts.symAwaitRejects ? this.opts.symAwaitRejects(a) : true) outs.push({ k: "throw", v: S("rej:" + id, { label: "rejection of " + a.label, userErr: true }), st: st.clone() });
      }
      outs.push({ k: "ret", v: ty.kind === "promise" || a.user ? S(`awaited(${id})`, { label: `await ${a.label}`, taint: a.taint || [], user: a.user, awaitedOf: a }) : mkVal([a]), st });
      return outs;
    }
    return [{ k: "ret", v: mkVal([a]), st }];
  }
  setProm(st, a, f) {
    const r = st.rec(a);
    st.setRec(a, { ...r, ...f });
  }
  settle(st, a, kind, v, frame) {
    const r = st.rec(a);
    const reactions = r.reactions;
    st.setRec(a, { ...r, s: kind, v, cont: null, reactions: [], busy: false });
    let states = [st];
    for (const rid of reactions) {
      const next = [];
      for (const s of states) {
        const ra = objAtom(rid);
        const rr = s.rec(ra);
        if (rr && rr.t === "promise" && !["resolved", "rejected"].includes(rr.s) && !rr.busy) {
          for (const o of this.force(s, ra, frame, false)) next.push(o.st);
        } else next.push(s);
      }
      states = next;
    }
    return states;
  }
  // settle a promise: outcomes ret/throw
  force(st, a, frame, handles) {
    let r = st.rec(a);
    if (handles && !r.handled) {
      this.setProm(st, a, { handled: true });
      r = st.rec(a);
    }
    if (r.busy) return [{ k: "ret", v: TOP, st }];
    if (this.sched) this.sched.forced(st, a);
    switch (r.s) {
      case "resolved": {
        if (r.v.atoms.some((x) => this.isPromiseAtom(st, x))) return this.awaitVal(st, r.v, null, frame);
        return [{ k: "ret", v: r.v, st }];
      }
      case "rejected":
        return [{ k: "throw", v: r.v, st }];
      case "pending": {
        if (!r.cont) return [{ k: "ret", v: r.never ? TOP : TOP, st }];
        this.setProm(st, a, { busy: true });
        const c = r.cont;
        const saved = st.tmp;
        st.tmp = new Map(c.tmp);
        this.stack.push(`${this.fnName(c.frame.node)} resumed (${this.p.loc(c.ir.nodes[c.n].ast)})`);
        let outs;
        try {
          outs = this.runIR(c.ir, c.frame, c.n, st, "force");
        } finally {
          this.stack.pop();
        }
        for (const o of outs) o.st.tmp = new Map(saved);
        return this.finishForce(outs, a, frame);
      }
      case "ext": {
        const outs = [];
        this.setProm(st, a, { busy: true });
        if (r.run) return this.finishForce(r.run(st, frame), a, frame);
        if (r.mayReject) {
          const s2 = st.clone();
          if (this.opts.onSettle) this.opts.onSettle({ st: s2, rec: r, ok: false, interp: this, atom: a });
          outs.push({ k: "throw", v: r.errVal || S("rej:" + r.token, { label: "rejection of " + (r.label || r.token), userErr: !!r.user || !!r.userFn }), st: s2 });
        }
        if (this.opts.onSettle) this.opts.onSettle({ st, rec: r, ok: true, interp: this, atom: a });
        outs.push({ k: "ret", v: r.okVal || S("awaited(" + r.token + ")", { label: "await " + (r.label || r.token), ty: r.okTy, user: r.user, taint: r.taint || [] }), st });
        return this.finishForce(outs, a, frame);
      }
      case "then": {
        this.setProm(st, a, { busy: true });
        const res = [], adopted = [];
        for (const o of this.awaitVal(st, r.parent, null, frame)) {
          const h = r.fin || (o.k === "ret" ? r.onF : r.onR);
          if (!h) {
            res.push(o);
            continue;
          }
          for (const q of this.call(o.st, h, UNDEF, r.fin ? [] : [o.v], r.origin || null, r.frame || frame, "th" + (r.site || ""), null)) {
            if (q.k !== "ret") {
              res.push(q);
              continue;
            }
            if (this.sched && this.sched.unsettled(q.st, q.v)) {
              if (r.fin) this.sched.imprecise = this.sched.imprecise || "finally with a promise";
              this.setProm(q.st, a, { parent: q.v, onF: null, onR: null, fin: null, busy: false });
              for (const x of q.v.atoms) if (this.isPromiseAtom(q.st, x)) this.setProm(q.st, x, { handled: true, reactions: q.st.rec(x).reactions.concat([a.id]) });
              adopted.push({ k: "ret", v: TOP, st: q.st });
              continue;
            }
            for (const z of this.awaitVal(q.st, q.v, null, frame)) {
              if (z.k !== "ret") res.push(z);
              else if (r.fin) res.push({ k: o.k, v: o.v, st: z.st });
              else res.push(z);
            }
          }
        }
        return this.finishForce(this.reduceOuts(res), a, frame).concat(adopted);
      }
      case "all":
      case "settled": {
        this.setProm(st, a, { busy: true });
        const it = this.listOf(st, r.list, frame, null);
        let cur = [{ st, vals: [] }];
        const thrown = [];
        const elems = it.elems ? it.elems : [{ v: it.sum, m: true }];
        if (this.sched && r.s === "all") {
          const bad = elems.find((e) => !e.m && e.v.atoms.length === 1 && e.v.atoms[0].k === "obj" && (st.rec(e.v.atoms[0]) || {}).s === "rejected");
          if (bad) return this.finishForce([{ k: "throw", v: st.rec(bad.v.atoms[0]).v, st }], a, frame);
        }
        for (const e of elems) {
          const next = [];
          for (const c of cur) {
            if (e.m) next.push({ st: c.st.clone(), vals: c.vals.concat(it.elems ? [null] : []) });
            for (const o of this.awaitVal(c.st, e.v, null, frame)) {
              if (o.k === "throw" && r.s === "all") thrown.push(o);
              else {
                let v = o.v;
                if (r.s === "settled") {
                  const rec = newObj();
                  rec.props.set("status", C(o.k === "ret" ? "fulfilled" : "rejected"));
                  rec.props.set(o.k === "ret" ? "value" : "reason", o.v);
                  v = this.alloc(o.st, `set:${a.id}:${c.vals.length}${o.k}`, rec);
                }
                next.push({ st: o.st, vals: c.vals.concat([v]) });
              }
            }
          }
          cur = next.length > 6 ? this.mergePartial(next) : next;
        }
        const outs = cur.map((c) => {
          const rec = it.elems ? newArr(c.vals.filter((x) => x).map((v) => ({ v, m: false }))) : { ...newArr(), elems: null, sum: c.vals.length ? union(...c.vals) : UNDEF };
          return { k: "ret", v: this.alloc(c.st, `allr:${a.id}`, rec), st: c.st };
        });
        return this.finishForce(outs.concat(thrown), a, frame);
      }
      case "race": {
        this.setProm(st, a, { busy: true });
        const it = this.listOf(st, r.list, frame, null);
        const elems = it.elems ? it.elems : [{ v: it.sum, m: true }];
        const outs = [];
        const first = this.sched ? elems.filter((e) => !this.sched.unsettled(st, e.v)) : [];
        for (const e of first.length ? first : elems) outs.push(...this.awaitVal(st.clone(), e.v, null, frame));
        return this.finishForce(outs, a, frame);
      }
    }
    return [{ k: "ret", v: TOP, st }];
  }
  mergePartial(list) {
    const g = new Map();
    for (const c of list) {
      const k = c.st.partKey() + "|" + c.vals.length;
      if (!g.has(k)) g.set(k, c);
      else {
        const o = g.get(k);
        g.set(k, { st: mergeStates(o.st, c.st), vals: o.vals.map((v, i) => (v && c.vals[i] ? union(v, c.vals[i]) : v || c.vals[i])) });
      }
    }
    return [...g.values()];
  }
  finishForce(outs, a, frame) {
    const res = [];
    const flat = [];
    for (const o of outs) {
      // a promise returned from an async function or reaction is adopted
      if (o.k === "ret" && o.v.atoms.some((x) => (this.isPromiseAtom(o.st, x) && x !== a) || this.maybePromise(x))) flat.push(...this.awaitVal(o.st, o.v, null, frame));
      else flat.push(o);
    }
    for (const o of flat) {
      if (o.k === "susp") continue;
      const states = this.settle(o.st, a, o.k === "ret" ? "resolved" : "rejected", o.v, frame);
      for (const s of states) res.push({ k: o.k, v: o.v, st: s });
    }
    return this.reduceOuts(res);
  }
  then(st, pv, onF, onR, fin, ast, frame, site) {
    const outs = [];
    const a = single(pv);
    const id = `th:${frame ? frame.id : ""}:${site}`;
    const rec = this.promRec("then", { parent: pv, onF, onR, fin, frame, site, origin: ast });
    const dv = this.alloc(st, id, rec);
    for (const x of pv.atoms)
      if (x.k === "obj") {
        const r = st.rec(x);
        if (r && r.t === "promise") {
          const upd = { handled: true };
          if (!["resolved", "rejected"].includes(r.s)) upd.reactions = r.reactions.concat([dv.atoms[0].id]);
          this.setProm(st, x, upd);
        }
      }
    return dv;
  }
  // run every still-pending promise in the heap (what the event loop would eventually do)
  drain(st, frame, filter) {
    let states = [st];
    for (let round = 0; round < 4; round++) {
      let any = false;
      const next = [];
      for (const s of states) {
        const pend = [];
        for (const [k, r] of s.heap) if (r && r.t === "promise" && !["resolved", "rejected"].includes(r.s) && !r.busy && (!filter || filter(r))) pend.push(k);
        if (!pend.length) {
          next.push(s);
          continue;
        }
        any = true;
        let cur = [s];
        for (const k of pend) {
          const n2 = [];
          for (const c of cur) {
            const r = c.heap.get(k);
            if (r && r.t === "promise" && !["resolved", "rejected"].includes(r.s) && !r.busy) {
              for (const o of this.force(c, objAtom(k.slice(2)), frame, false)) n2.push(o.st);
            } else n2.push(c);
          }
          cur = this.reduceStates(n2, this.opts.K);
        }
        next.push(...cur);
      }
      states = this.reduceStates(next, this.opts.K);
      if (!any) break;
    }
    return states;
  }
  unhandled(st) {
    const res = [];
    for (const [k, r] of st.heap) if (r && r.t === "promise" && r.s === "rejected" && !r.handled) res.push({ key: k, rec: r });
    return res;
  }
}

module.exports = { Interp, State, BudgetError, newObj, newArr, elemsOf, sumOf, unionOpt, mergeStates, eqState };
