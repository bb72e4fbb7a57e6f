"use strict";
// Abstract values: finite unions of interned atoms.
const atoms = new Map();
const vals = new Map();
function mkAtom(key, f) {
  let a = atoms.get(key);
  if (!a) {
    a = Object.assign({ key }, f);
    atoms.set(key, a);
  }
  return a;
}
const MAX_ATOMS = 24;
const MAX_NUMS = 6;
function mkVal(list) {
  // list of atoms (dedupe)
  if (list.length === 1) {
    const a = list[0];
    if (!a.val) a.val = (() => { const k = a.key; let v = vals.get(k); if (!v) { v = { key: k, atoms: [a] }; vals.set(k, v); } return v; })();
    return a.val;
  }
  const m = new Map();
  for (const a of list) m.set(a.key, a);
  let arr = [...m.values()];
  const nums = arr.filter((a) => a.k === "const" && typeof a.v === "number");
  if (nums.length > MAX_NUMS) {
    arr = arr.filter((a) => !(a.k === "const" && typeof a.v === "number"));
    arr.push(symAtom("num#", { ty: { kind: "number", nullable: false } }));
  }
  if (arr.length > MAX_ATOMS) {
    const taint = new Set();
    for (const a of arr) for (const t of taintOfAtom(a)) taint.add(t);
    arr = [topAtom([...taint].sort())];
  }
  if (arr.length === 1) return mkVal(arr);
  arr.sort((x, y) => (x.key < y.key ? -1 : x.key > y.key ? 1 : 0));
  const key = arr.map((a) => a.key).join("|");
  let v = vals.get(key);
  if (!v) {
    v = { key, atoms: arr };
    vals.set(key, v);
  }
  return v;
}
function constAtom(v) {
  const key = "c:" + (v === null ? "null" : typeof v) + ":" + (Object.is(v, -0) ? "-0" : String(v));
  return mkAtom(key, { k: "const", v });
}
const C = (v) => mkVal([constAtom(v)]);
function symAtom(id, f = {}) {
  // atoms are interned: the same unknown with more taint is another atom
  const old = f.taint && f.taint.length && atoms.get("s:" + id);
  if (old && f.taint.some((t) => !(old.taint || []).includes(t))) id += "^" + [...f.taint].sort().join(",");
  return mkAtom("s:" + id, Object.assign({ k: "sym", id, label: id, ty: { kind: "any", nullable: true }, taint: [] }, f));
}
const S = (id, f) => mkVal([symAtom(id, f)]);
function topAtom(taint = []) {
  return mkAtom("top:" + taint.join(","), { k: "top", taint });
}
const TOP = mkVal([topAtom()]);
function objAtom(id) {
  return mkAtom("o:" + id, { k: "obj", id });
}
const O = (id) => mkVal([objAtom(id)]);
function biAtom(name) {
  return mkAtom("b:" + name, { k: "bi", name });
}
const BI = (n) => mkVal([biAtom(n)]);
let fnIds = new Map();
function nid(node) {
  let i = fnIds.get(node);
  if (i === undefined) {
    i = fnIds.size;
    fnIds.set(node, i);
  }
  return i;
}
function fnAtom(node, scope, thisv, bargs) {
  return mkAtom(`f:${nid(node)}@${scope ? scope.id : "-"}${thisv ? "~" + thisv.key : ""}${bargs ? "[" + bargs.map((b) => b.key).join(";") + "]" : ""}`, { k: "fn", node, scope, thisv, bargs });
}
const F = (node, scope, thisv, bargs) => mkVal([fnAtom(node, scope, thisv, bargs)]);
function boundAtom(target, thisv, bargs) {
  // bound non-closure callee (sym / builtin)
  return mkAtom(`bd:${target.key}~${thisv ? thisv.key : ""}[${(bargs || []).map((b) => b.key).join(";")}]`, { k: "bound", target, thisv, bargs: bargs || [] });
}
function clsAtom(node, scope) {
  return mkAtom(`k:${nid(node)}@${scope ? scope.id : "-"}`, { k: "cls", node, scope });
}
const K = (node, scope) => mkVal([clsAtom(node, scope)]);
// abstract string: ordered parts, each a JS string or a Val
function strVal(parts) {
  let out = [];
  let multi = null;
  for (const p of parts) {
    if (typeof p === "string") {
      if (p === "") continue;
      if (typeof out[out.length - 1] === "string") out[out.length - 1] += p;
      else out.push(p);
    } else if (p.atoms.length === 1 && p.atoms[0].k === "const") {
      const s = String(p.atoms[0].v);
      if (typeof out[out.length - 1] === "string") out[out.length - 1] += s;
      else if (s !== "") out.push(s);
    } else if (p.atoms.length === 1 && p.atoms[0].k === "str") {
      for (const q of p.atoms[0].parts) {
        if (typeof q === "string" && typeof out[out.length - 1] === "string") out[out.length - 1] += q;
        else out.push(q);
      }
    } else {
      out.push(p);
    }
  }
  if (out.length === 0) return C("");
  if (out.length === 1 && typeof out[0] === "string") return C(out[0]);
  if (out.length > 24) out = out.slice(0, 24).concat([TOP]);
  // distribute small const unions so that every alternative is an exact string
  for (let i = 0; i < out.length; i++) {
    const p = out[i];
    if (typeof p !== "string" && p.atoms.length > 1 && p.atoms.length <= 12 && p.atoms.every((a) => a.k === "const" || a.k === "str")) {
      return union(...p.atoms.map((a) => strVal([...out.slice(0, i), mkVal([a]), ...out.slice(i + 1)])));
    }
  }
  const key = "t:" + out.map((p) => (typeof p === "string" ? JSON.stringify(p) : "{" + p.key + "}")).join("+");
  const a = mkAtom(key, { k: "str", parts: out });
  return mkVal([a]);
}
function union(...vs) {
  if (vs.length === 1) return vs[0];
  let first = vs[0];
  if (vs.every((v) => v === first)) return first;
  const l = [];
  for (const v of vs) for (const a of v.atoms) l.push(a);
  return mkVal(l);
}
// content-addressed pure operation
function opSym(op, args, ty) {
  const key = `${op}(${args.map((a) => (typeof a === "string" ? a : a.key)).join(",")})`;
  const taint = new Set();
  for (const a of args) if (typeof a !== "string") for (const t of taintOf(a)) taint.add(t);
  const id = key.length > 400 ? op + "#" + hash(key) : key;
  return mkVal([symAtom(id, { ty: ty || { kind: "any", nullable: true }, taint: [...taint].sort(), op, args: args.filter((a) => typeof a !== "string") })]);
}
function hash(s) {
  let h = 5381, g = 52711;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    h = ((h << 5) + h + c) | 0;
    g = ((g << 5) + g + (c ^ 0x55)) | 0;
  }
  return (h >>> 0).toString(36) + (g >>> 0).toString(36);
}
function taintOfAtom(a) {
  if (a.k === "str") {
    const r = new Set();
    for (const p of a.parts) if (typeof p !== "string") for (const t of taintOf(p)) r.add(t);
    return [...r];
  }
  return a.taint || [];
}
function taintOf(v) {
  if (v.atoms.length === 1) return taintOfAtom(v.atoms[0]);
  const r = new Set();
  for (const a of v.atoms) for (const t of taintOfAtom(a)) r.add(t);
  return [...r];
}
const UNDEF = C(undefined), NULL = C(null), TRUE = C(true), FALSE = C(false);
const BOOL = mkVal([constAtom(true), constAtom(false)]);
const single = (v) => (v && v.atoms.length === 1 ? v.atoms[0] : null);
const isConst = (v) => !!v && v.atoms.length === 1 && v.atoms[0].k === "const";
const constOf = (v) => v.atoms[0].v;

module.exports = { mkVal, mkAtom, constAtom, C, symAtom, S, topAtom, TOP, objAtom, O, biAtom, BI, fnAtom, F, boundAtom, clsAtom, K, strVal, union, opSym, taintOf, taintOfAtom, UNDEF, NULL, TRUE, FALSE, BOOL, single, isConst, constOf, nid, hash };
