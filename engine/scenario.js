"use strict";
// Helpers to phrase rules: locate exported entities, build abstract inputs, common stubs.
const { ts, loadProject } = require("./project.js");
const { Interp, State, newObj, newArr, elemsOf, sumOf } = require("./interp.js");
const { isFunctionLike, ownerOf } = require("./lower.js");
const V = require("./values.js");
const { C, S, O, BI, F, K, TOP, UNDEF, TRUE, FALSE, mkVal, single, union, opSym, objAtom, fnAtom, isConst, constOf } = V;

class AnchorError extends Error {}

// exported symbol of a package (through its index.ts, else any module of the package)
function findExport(p, pkg, name) {
  const idx = p.program.getSourceFile(`${p.REPO}/packages/${pkg}/src/index.ts`);
  const res = (s) => {
    if (s.flags & ts.SymbolFlags.Alias) s = p.checker.getAliasedSymbol(s);
    return s;
  };
  if (idx) {
    const ms = p.checker.getSymbolAtLocation(idx);
    if (ms) for (const s of p.checker.getExportsOfModule(ms)) if (s.name === name) return res(s);
  }
  for (const f of p.repoFiles) {
    if (p.pkgOf(f.fileName) !== pkg) continue;
    const ms = p.checker.getSymbolAtLocation(f);
    if (!ms) continue;
    for (const s of p.checker.getExportsOfModule(ms)) if (s.name === name) return res(s);
  }
  // not exported: any top-level declaration of that name
  for (const f of p.repoFiles) {
    if (p.pkgOf(f.fileName) !== pkg) continue;
    for (const st of f.statements) {
      if ((ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st)) && st.name && st.name.text === name) return p.checker.getSymbolAtLocation(st.name);
      if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name) && d.name.text === name) return p.checker.getSymbolAtLocation(d.name);
    }
  }
  return null;
}
function needExport(p, pkg, name) {
  const s = findExport(p, pkg, name);
  if (!s) throw new AnchorError(`public entity ${name} of package ${pkg} not found`);
  return s;
}
function declOf(sym) {
  return sym.valueDeclaration || sym.declarations[0];
}
function findClass(p, pkg, name) {
  const s = needExport(p, pkg, name);
  const d = s.declarations.find(ts.isClassDeclaration);
  if (!d) throw new AnchorError(`${name} of package ${pkg} is not a class`);
  return d;
}
function method(cls, name, I) {
  const m = I.findMember(cls, name);
  if (!m) throw new AnchorError(`method ${cls.name.text}.${name} not found`);
  return m.node;
}

const inFile = (node, re) => re.test(node.getSourceFile().fileName);
const clsName = (node) => (node.parent && ts.isClassLike(node.parent) && node.parent.name ? node.parent.name.text : null);
const fnNameOf = (node) => (node.name && ts.isIdentifier(node.name) ? node.name.text : node.parent && ts.isVariableDeclaration(node.parent) && ts.isIdentifier(node.parent.name) ? node.parent.name.text : null);

// Standard environment model shared by all rules.
//  - the logger never throws and is observed through hooks.onLog
//  - getEnv(NAME) yields the unknown string|undefined  env.NAME
//  - generated REST client calls are external asynchronous requests
function stdStub(hooks = {}) {
  return (node, info) => {
    const f = node.getSourceFile().fileName;
    if (/packages\/core\/src\/logger\//.test(f) && !hooks.analyseLogger) {
      const cn = clsName(node);
      const n = fnNameOf(node);
      if (cn) {
        if (hooks.onLog && info) hooks.onLog(info, n);
        if (n === "isLevelEnabled") return hooks.debugEnabled !== undefined ? C(hooks.debugEnabled) : S("debugEnabled", { label: "isLevelEnabled()", ty: { kind: "boolean", nullable: false } });
        return UNDEF;
      }
      if (/logger/i.test(n || "")) return S("logger", { label: "logger", ty: { kind: "object", nullable: false } });
      return null;
    }
    if (fnNameOf(node) === "getEnv" && /packages\/core\/src\//.test(f) && info && !hooks.analyseEnv) {
      const a = info.args[0];
      if (a && isConst(a) && hooks.env && hooks.env[constOf(a)]) return hooks.env[constOf(a)];
      if (a && isConst(a)) return S("env." + constOf(a), { label: "env." + constOf(a), ty: { kind: "string", nullable: true }, taint: hooks.envTaint ? hooks.envTaint(constOf(a)) : [] });
      return S("env.?", { ty: { kind: "string", nullable: true } });
    }
    if (/packages\/core\/src\/api\//.test(f) && !hooks.analyseApi) {
      if (!info) return UNDEF;
      return apiCall(info, hooks);
    }
    if (hooks.stub) return hooks.stub(node, info);
    return null;
  };
}
function apiCall(info, hooks) {
  const I = info.interp;
  const st = info.st;
  if (info.ret && info.ret.kind === "promise") {
    const label = info.label || info.name;
    const rec = I.promRec("ext", { token: `api:${label}@${info.frame.id}:${info.site}`, mayReject: true, label: "api " + (info.name || label), apiName: info.name, args: info.args });
    rec.origin = info.ast;
    if (hooks.onApi) {
      const r = hooks.onApi(info, rec);
      if (r) return r;
    }
    return [{ k: "ret", v: I.alloc(st, `api:${info.frame.id}:${info.site}`, rec), st }];
  }
  return [{ k: "ret", v: I.fresh(st, `apir:${info.name}@${info.frame.id}:${info.site}`, { label: `api.${info.name}()`, ty: info.ret }), st }];
}
// external classes constructed: LangfuseAPIClient → opaque API handle
function stdOnNew(hooks = {}) {
  return (info) => {
    if (hooks.onNew) {
      const r = hooks.onNew(info);
      if (r) return r;
    }
    if (info.callee.k === "cls" && /packages\/core\/src\/api\//.test(info.callee.node.getSourceFile().fileName) && !hooks.analyseApi) {
      const nm = info.callee.node.name.text;
      if (hooks.onApiClient) hooks.onApiClient(info);
      return S("api", { label: "api", ty: { kind: "object", nullable: false }, ctorOf: nm });
    }
    return null;
  };
}
// OpenTelemetry context/tracer functions that call back into our code
function stdOnCall(hooks = {}) {
  return (info) => {
    if (hooks.onCall) {
      const r = hooks.onCall(info);
      if (r) return r;
    }
    if (info.callee.k !== "sym" && info.callee.k !== "top") return null;
    const I = info.interp;
    if (info.name === "with" && info.decl && /@opentelemetry\/api/.test(info.decl.getSourceFile().fileName)) {
      if (hooks.onWith) hooks.onWith(info);
      const prev = info.st.facts.get("ctx");
      info.st.setFact("ctx", info.args[0].key);
      const outs = I.call(info.st, info.args[1], info.args[2] || UNDEF, info.args.slice(3), info.ast, info.frame, info.site + "w", null);
      for (const o of outs) prev === undefined ? o.st.delFact("ctx") : o.st.setFact("ctx", prev);
      return outs;
    }
    if (info.name === "startActiveSpan") {
      const cb = info.args[info.args.length - 1];
      const sp = hooks.mkSpan ? hooks.mkSpan(info) : I.fresh(info.st, `span@${info.frame.id}:${info.site}`, { label: "span", ty: { kind: "object", nullable: false } });
      return I.call(info.st, cb, UNDEF, [sp], info.ast, info.frame, info.site + "w", null);
    }
    return null;
  };
}
// the thorough tier keeps more states apart and explores longer before it gives up
const thorough = (o = {}) => ((process.argv[3] || process.env.VERIF_TIER) === "thorough" ? { ...o, K: (o.K || 8) * 3, maxSteps: (o.maxSteps || 4e6) * 4 } : o);
function mkInterp(p, hooks = {}) {
  const I = new Interp(p, {
    ...thorough(hooks.opts),
    stub: stdStub(hooks),
    onNew: stdOnNew(hooks),
    onCall: stdOnCall(hooks),
    mayThrow: hooks.mayThrow,
    mayReject: hooks.mayReject,
    onSettle: hooks.onSettle,
    onAwait: hooks.onAwait,
    onSetProp: hooks.onSetProp,
    onGetProp: hooks.onGetProp,
    onDelete: hooks.onDelete,
    onReturn: hooks.onReturn,
    onYield: hooks.onYield,
    afterCall: hooks.afterCall,
    anyThrows: hooks.anyThrows,
    onGetter: hooks.onGetter,
    moduleVar: hooks.moduleVar,
    symAwaitRejects: hooks.symAwaitRejects,
  });
  return I;
}
const root = { id: "root", node: null, parent: null, thisVal: UNDEF, args: [], depth: 0 };

function symFn(id, f = {}) {
  return S(id, { label: id, ty: { kind: "function", nullable: false }, user: true, ...f });
}
function symObj(id, f = {}) {
  return S(id, { label: id, ty: { kind: "object", nullable: false }, ...f });
}
function symStr(id, f = {}) {
  return S(id, { label: id, ty: { kind: "string", nullable: false }, ...f });
}
function mkObj(I, st, id, props, f = {}) {
  const r = { ...newObj(), ...f };
  for (const k of Object.keys(props)) r.props.set(k, props[k]);
  const v = mkVal([objAtom(id)]);
  st.setRec(v.atoms[0], r);
  return v;
}
function mkArr(I, st, id, vals) {
  const v = mkVal([objAtom(id)]);
  st.setRec(v.atoms[0], newArr(elemsOf(vals)));
  return v;
}
function newInstance(I, st, cls, args, site = "new") {
  return I.constructAtom(st, V.clsAtom(cls, null), args, null, root, site);
}
function invoke(I, st, obj, name, args, site) {
  // public method call on an abstract instance
  const outs = [];
  for (const o of I.getProp(st, obj, name, null, root, { i: site, forCall: true })) {
    if (o.k !== "ret") {
      outs.push(o);
      continue;
    }
    outs.push(...I.call(o.st, o.v, obj, args, null, root, site || name, name));
  }
  return outs;
}
function callFunction(I, st, fnNode, args, site = "f", thisV = UNDEF) {
  return I.callFn(st, fnAtom(fnNode, null), thisV, args, root, site, null);
}
function findFunction(p, pkg, name) {
  const s = needExport(p, pkg, name);
  const d = s.declarations.find((x) => ts.isFunctionDeclaration(x) && x.body);
  if (d) return d;
  const vd = s.valueDeclaration;
  if (vd && ts.isVariableDeclaration(vd) && vd.initializer) {
    const { skip } = require("./lower.js");
    const e = skip(vd.initializer);
    if (isFunctionLike(e)) return e;
  }
  throw new AnchorError(`function ${name} of package ${pkg} not found`);
}
function enumValues(p, pkg, name) {
  const s = needExport(p, pkg, name);
  const d = s.declarations.find(ts.isEnumDeclaration);
  if (d) {
    const m = {};
    for (const x of d.members) m[x.name.text] = p.checker.getConstantValue(x);
    return m;
  }
  throw new AnchorError(`enum ${name} not found`);
}
const labelsOf = (v) => (v ? v.atoms : []).map((a) => (a.k === "const" ? JSON.stringify(a.v) : a.k === "str" ? a.parts.map((p) => (typeof p === "string" ? p : "{" + labelsOf(p) + "}")).join("") : a.label || a.key)).join(" | ");

module.exports = { ts, loadProject, AnchorError, findExport, needExport, declOf, findClass, method, mkInterp, State, root, symFn, symObj, symStr, mkObj, mkArr, newInstance, invoke, callFunction, findFunction, enumValues, labelsOf, fnNameOf, clsName, inFile, newObj, newArr, elemsOf, sumOf, V, Interp, isFunctionLike, ownerOf };
