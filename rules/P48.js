"use strict";
const { L, V, prop, where } = require("./_common.js");
const { ts } = L;
const { builtinModules } = require("node:module");
const fs = require("fs");
const { S, C, UNDEF, single, isConst, constOf } = V;
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
const NODE = ["process", "Buffer", "require", "module", "exports", "__dirname", "__filename", "setImmediate", "clearImmediate", "global"];
const WEB = ["window", "document", "navigator", "localStorage", "sessionStorage", "self", "location", "Deno", "Bun", "EdgeRuntime", "importScripts", "XMLHttpRequest"];
const all = (names, v) => Object.fromEntries(names.map((n) => [n, v]));
// platforms: which globals exist; everything else of the two lists does not
const PLATFORMS = { "no platform globals": {}, browser: all(["window", "document", "navigator", "self", "localStorage", "location"], true), "web worker": all(["self", "navigator", "importScripts"], true), "edge with a process object": { process: true }, node: all(["process", "Buffer", "global", "setImmediate", "clearImmediate"], true) };
const fnLike = (n) => n && (ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isGetAccessorDeclaration(n) || ts.isSetAccessorDeclaration(n) || ts.isArrowFunction(n) || ts.isFunctionExpression(n));
// outermost function around a node (a method, a top-level function or function-valued variable)
function rootOf(n) {
  let r = null;
  for (let x = n; x; x = x.parent) if (fnLike(x)) r = x;
  return r;
}
module.exports = {
  id: "P48",
  title: "the SDK runs on every JavaScript platform: no unguarded platform global, no Node module",
  rule: "No source file of any package imports a Node built-in module or, at run time, a package it does not declare; every function that mentions a global which only some platforms have (process, Buffer, require, setImmediate, window, document, navigator, Deno, ...) or a method which only some platforms' timers have is analysed on five platform profiles and never throws because the global or method is missing",
  assumptions: ["fetch, crypto, TextEncoder, atob and btoa exist on every supported platform"],
  min: 20,
  run(p, R) {
    // ---- imports
    let imports = 0;
    const pkgJson = (pkg) => JSON.parse(fs.readFileSync(`${p.REPO}/packages/${pkg}/package.json`, "utf8"));
    const declared = {};
    const builtin = (m) => m.startsWith("node:") || builtinModules.includes(m.split("/")[0]);
    const check = (f, node, m, typeOnly) => {
      if (m.startsWith(".")) return;
      const pkg = p.pkgOf(f.fileName);
      imports++;
      if (typeOnly) return;
      if (!R.ob(`import:${p.loc(node).replace(/:\d+.*$/, "")}:${m}`, !builtin(m), `the Node module ${m} is imported`, { loc: p.loc(node) })) return;
      const d = (declared[pkg] = declared[pkg] || (() => {
        const j = pkgJson(pkg);
        return { ...j.dependencies, ...j.peerDependencies, ...j.optionalDependencies, [j.name]: 1 };
      })());
      const name = m.startsWith("@") ? m.split("/").slice(0, 2).join("/") : m.split("/")[0];
      R.ob(`declared:${pkg}:${name}`, d[name] !== undefined, `${name} is imported but not a dependency of the package`, { loc: p.loc(node) });
    };
    const roots = new Map(); // function -> reason
    const refs = [];
    const users = new Map(); // symbol -> identifiers that use it
    for (const f of p.repoFiles) {
      const walk = (n) => {
        if (ts.isImportDeclaration(n) && ts.isStringLiteral(n.moduleSpecifier)) {
          const c = n.importClause;
          const named = c && c.namedBindings && ts.isNamedImports(c.namedBindings) ? c.namedBindings.elements : null;
          const isType = (e) => {
            if (e.isTypeOnly) return true;
            let s = p.checker.getSymbolAtLocation(e.name);
            if (s && s.flags & ts.SymbolFlags.Alias) s = p.checker.getAliasedSymbol(s);
            return !!s && s.flags !== 0 && !(s.flags & ts.SymbolFlags.Value);
          };
          check(f, n, n.moduleSpecifier.text, !!(c && (c.isTypeOnly || (named && !c.name && named.length && named.every(isType)))));
        } else if (ts.isExportDeclaration(n) && n.moduleSpecifier) check(f, n, n.moduleSpecifier.text, n.isTypeOnly);
        else if (ts.isCallExpression(n) && n.arguments.length && ts.isStringLiteralLike(n.arguments[0]) && (n.expression.kind === ts.SyntaxKind.ImportKeyword || (ts.isIdentifier(n.expression) && n.expression.text === "require"))) check(f, n, n.arguments[0].text, false);
        else if (ts.isImportEqualsDeclaration(n) && ts.isExternalModuleReference(n.moduleReference)) check(f, n, n.moduleReference.expression.text, n.isTypeOnly);
        if (ts.isTypeNode(n) && !ts.isExpressionWithTypeArguments(n)) return;
        if (ts.isIdentifier(n)) {
          const par = n.parent;
          const isName = (ts.isPropertyAccessExpression(par) && par.name === n) || (par.name === n && !ts.isShorthandPropertyAssignment(par)) || (ts.isPropertyAssignment(par) && par.name === n) || ts.isBindingElement(par);
          const viaGlobal = ts.isPropertyAccessExpression(par) && par.name === n && /^\(?(globalThis|global|self|window)\b/.test(par.expression.getText());
          if ((!isName || viaGlobal) && (NODE.includes(n.text) || WEB.includes(n.text))) {
            const s = p.checker.getSymbolAtLocation(n);
            const d = s && s.declarations && s.declarations[0];
            const local = d && p.pkgOf(d.getSourceFile().fileName) && !isAmbient(d);
            if (!local || viaGlobal) refs.push(n);
          } else if (["unref", "ref", "hasRef"].includes(n.text) && ts.isPropertyAccessExpression(par) && par.name === n) refs.push(n);
          else if (!isName) {
            let s = p.checker.getSymbolAtLocation(n);
            if (s && s.flags & ts.SymbolFlags.Alias) s = p.checker.getAliasedSymbol(s);
            if (s) users.set(s, (users.get(s) || []).concat([n]));
          } else if (ts.isPropertyAccessExpression(par) && par.name === n) {
            const s = p.checker.getSymbolAtLocation(n);
            if (s) users.set(s, (users.get(s) || []).concat([n]));
          }
        }
        ts.forEachChild(n, walk);
      };
      walk(f);
    }
    R.ob("imports", imports >= 20, `only ${imports} imports found`);
    R.ob("references", refs.length >= 5, `only ${refs.length} platform references found`);
    // ---- platform profiles
    const profiles = Object.entries(PLATFORMS).map(([n, g]) => [n, { ...all(NODE, false), ...all(WEB, false), ...g }]);
    const results = new Map();
    const mentions = new Set(refs.map(rootOf));
    const analyse = (fn, target, on, coarse) => {
      if (!target && !coarse && results.has(fn)) return results.get(fn);
      const bad = [];
      if (!target) results.set(fn, bad);
      for (const [pn, globals] of profiles) {
        if (on && !on.has(pn)) continue;
        const I = R.use(
          L.mkInterp(p, {
            analyseEnv: true,
            analyseLogger: true,
            analyseApi: true,
            debugEnabled: false,
            opts: { K: 24, maxSteps: 1e5, freshGlobals: true, stringifyThrows: false, globals },
            stub(node, info) {
              // a coarse analysis looks into this function and those that mention platform globals only
              if (coarse && info && rootOf(node) !== fn && node !== target && !mentions.has(rootOf(node)) && !info.args.some((x) => x.atoms.some((y) => y.k === "fn" || y.k === "bound"))) return [{ k: "ret", v: S("result of " + nameOf(node), { label: "result of " + nameOf(node) }), st: info.st }];
              if (!target || !info || node !== target) return null;
              if (!bad.some((b) => b.pn === pn)) bad.push({ pn, msg: `calls ${nameOf(target)}, which ${on.get(pn)}`, kind: "ref" });
              return [{ k: "ret", v: S("stubbed", { label: "stubbed" }), st: info.st }];
            },
            onCall(info) {
              const nm = info.callee.k === "bi" ? info.callee.name : "";
              if ((nm === "setTimeout" || nm === "setInterval") && pn !== "node") return [{ k: "ret", v: C(1), st: info.st }];
              return null;
            },
          }),
        );
        const st = new L.State();
        const args = fn.parameters.map((q) => (q.dotDotDotToken ? UNDEF : S("arg." + q.name.getText(), { label: q.name.getText(), ty: I.describeSafe ? I.describe(p.checker.getTypeAtLocation(q)) : undefined }))).filter((x) => x !== UNDEF);
        const self = ts.isClassLike(fn.parent) ? S("self", { label: "this", ty: { kind: "object", nullable: false, cls: fn.parent } }) : UNDEF;
        let fin = [];
        try {
          fin = I.callFn(st, V.fnAtom(fn, null), self, args, L.root, "root", null).flatMap((o) => {
            if (o.k !== "ret") return [o];
            const a = single(o.v), r = a && a.k === "obj" && o.st.rec(a);
            return r && r.t === "promise" ? I.awaitVal(o.st, o.v, null, L.root) : [o];
          });
        } catch (e) {
          if (!/budget/.test(e.message)) throw e;
          if (!coarse) {
            const b = analyse(fn, target, on, true);
            if (!target) results.set(fn, b);
            return b;
          }
          R.note(`${nameOf(fn)}: ${e.message}`);
        }
        for (const o of target ? [] : fin) {
          if (o.k !== "throw") continue;
          const a = single(o.v);
          if (a && a.refErr) bad.push({ pn, msg: `throws ReferenceError: ${a.refErr} on the platform "${pn}"`, kind: "ref" });
          else if (a && /TypeError/.test(a.label || a.id || "")) bad.push({ pn, msg: `throws a TypeError on the platform "${pn}"`, kind: "type" });
        }
      }
      // a TypeError on every platform alike is not about the platform
      const type = bad.filter((b) => b.kind === "type");
      if (new Set(type.map((b) => b.pn)).size === profiles.length) for (const t of type) bad.splice(bad.indexOf(t), 1);
      return bad;
    };
    const symOf = (fn) => {
      const nm = fn.name || (ts.isVariableDeclaration(fn.parent) && fn.parent.name) || (ts.isPropertyAssignment(fn.parent) && fn.parent.name);
      return nm ? p.checker.getSymbolAtLocation(nm) : null;
    };
    const exported = (fn) => {
      if (ts.isClassLike(fn.parent)) return !(fn.modifiers || []).some((m) => m.kind === ts.SyntaxKind.PrivateKeyword) && !(fn.name && ts.isPrivateIdentifier(fn.name));
      const s = symOf(fn);
      const m = p.checker.getSymbolAtLocation(fn.getSourceFile());
      return !!s && !!m && p.checker.getExportsOfModule(m).some((e) => e === s || e.exportSymbol === s || (e.valueDeclaration && e.valueDeclaration === s.valueDeclaration));
    };
    // a private function may rely on its callers' guard: it is then judged by whether a caller can reach it on
    // a platform on which it throws
    const judge = (fn, depth, bad) => {
      if (!bad.length || depth > 4 || exported(fn)) return bad;
      const s = symOf(fn);
      const us = (s && users.get(s)) || [];
      const callers = [...new Set(us.map(rootOf))].filter((c) => c && c !== fn);
      const atModule = us.some((u) => !rootOf(u) && !guarded(u));
      if (!callers.length || atModule) return bad;
      const on = new Map(bad.map((b) => [b.pn, b.msg]));
      return callers.flatMap((c) => judge(c, depth + 1, analyse(c, fn, on)));
    };
    // module-level code: an enclosing condition mentions typeof
    const guarded = (n) => {
      for (let x = n; x && x.parent; x = x.parent) {
        const q = x.parent;
        if (ts.isTypeOfExpression(q)) return true;
        if (ts.isIfStatement(q) && x !== q.expression && /typeof/.test(q.expression.getText())) return true;
        if (ts.isConditionalExpression(q) && x !== q.condition && /typeof/.test(q.condition.getText())) return true;
        if (ts.isBinaryExpression(q) && x === q.right && ["&&", "||", "??"].includes(q.operatorToken.getText()) && /typeof/.test(q.left.getText())) return true;
        if (ts.isPropertyAccessExpression(q) && q.name === x && ts.isIdentifier(q.expression) && q.expression.text === "globalThis" && (q.parent.questionDotToken || !ts.isPropertyAccessExpression(q.parent))) return true;
        if (ts.isTryStatement(q) && x === q.tryBlock) return true;
      }
      return false;
    };
    for (const n of refs) {
      const loc = p.loc(n);
      const fn = rootOf(n);
      if (!fn) {
        R.ob(`module:${n.text}:${loc.replace(/:\d+.*$/, "")}`, guarded(n), `${n.text} is used when the module is loaded, on platforms without it too`, { loc });
        continue;
      }
      const name = nameOf(fn);
      const bad = judge(fn, 0, analyse(fn));
      R.ob(`platform:${name}:${n.text}`, !bad.length, bad.length ? `${name} ${bad[0].msg}` : "", { loc });
      R.entry(`${name} (${n.text})`);
    }
  },
};
function nameOf(fn) {
  return (fn.name && fn.name.getText()) || (ts.isVariableDeclaration(fn.parent) ? fn.parent.name.getText() : "<function>");
}
function isAmbient(d) {
  for (let x = d; x; x = x.parent) if ((x.modifiers || []).some((m) => m.kind === ts.SyntaxKind.DeclareKeyword)) return true;
  return false;
}
