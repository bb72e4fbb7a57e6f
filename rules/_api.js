"use strict";
// Enumerates every endpoint of the REST client through the public API client object and analyses a call of it with
// unknown arguments; the request handed to the HTTP layer is captured, its response is chosen by the rule.
const { L, V, prop, where } = require("./_common.js");
const { ts } = L;
const { S, C, UNDEF, single, isConst, constOf } = V;
const inApi = (n) => /packages\/core\/src\/api\//.test(n.getSourceFile().fileName);
function fetcherNode(p) {
  const sf = p.files ? p.files.find((f) => /core\/fetcher\/Fetcher\.ts$/.test(f.fileName)) : p.program.getSourceFiles().find((f) => /core\/src\/api\/core\/fetcher\/Fetcher\.ts$/.test(f.fileName));
  if (!sf) throw new L.AnchorError("fetcher module not found");
  const ms = p.checker.getSymbolAtLocation(sf);
  let s = ms && p.checker.getExportsOfModule(ms).find((x) => x.name === "fetcher");
  for (let i = 0; i < 5 && s; i++) {
    if (s.flags & ts.SymbolFlags.Alias) s = p.checker.getAliasedSymbol(s);
    const d = s.declarations.find((x) => (ts.isFunctionDeclaration(x) && x.body) || (ts.isVariableDeclaration(x) && x.initializer));
    if (!d) break;
    if (ts.isFunctionDeclaration(d)) return d;
    let e = d.initializer;
    while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) e = e.expression;
    if (L.isFunctionLike(e)) return e;
    s = p.checker.getSymbolAtLocation(e);
  }
  throw new L.AnchorError("fetcher function not found");
}
// classes reachable from the API client through its properties: [{path, cls}]
function clients(p) {
  const root = L.findClass(p, "core", "LangfuseAPIClient");
  const out = [], seen = new Set();
  const walk = (cls, path) => {
    if (seen.has(cls)) return;
    seen.add(cls);
    out.push({ cls, path });
    const t = p.checker.getTypeAtLocation(cls);
    for (const s of t.getProperties()) {
      if (s.name.startsWith("_")) continue;
      const pt = p.checker.getTypeOfSymbolAtLocation(s, cls);
      const d = pt.symbol && pt.symbol.declarations && pt.symbol.declarations.find(ts.isClassDeclaration);
      if (d && inApi(d) && !(s.flags & ts.SymbolFlags.Method)) walk(d, path.concat(s.name));
    }
  };
  walk(root, []);
  return { root, list: out };
}
function endpoints(p) {
  const { root, list } = clients(p);
  const eps = [];
  for (const { cls, path } of list)
    for (const m of cls.members) {
      if (!ts.isMethodDeclaration(m) || !m.body || !ts.isIdentifier(m.name) || m.name.text.startsWith("_")) continue;
      if ((m.modifiers || []).some((x) => [ts.SyntaxKind.PrivateKeyword, ts.SyntaxKind.ProtectedKeyword, ts.SyntaxKind.StaticKeyword].includes(x.kind))) continue;
      const sig = p.checker.getSignatureFromDeclaration(m);
      const rt = sig && p.checker.typeToString(sig.getReturnType());
      if (!/Promise/.test(rt || "")) continue;
      eps.push({ root, path, cls, name: m.name.text, node: m, id: [...path, m.name.text].join("."), params: sig.getParameters() });
    }
  return eps;
}
const tyOf = (I, t) => ({ ...I.describe(t), nullable: false });
// abstract arguments for an endpoint. present: request fields given or not
function argsFor(p, I, st, ep, reqOpts, present) {
  const info = { path: {}, fields: {} };
  const args = ep.params.map((s) => {
    if (s.name === "requestOptions") return reqOpts;
    const d = s.valueDeclaration;
    let t = p.checker.getTypeOfSymbolAtLocation(s, d);
    t = p.checker.getNonNullableType(t);
    const ty = tyOf(I, t);
    if (ty.kind === "string" || ty.kind === "number") {
      const v = S("arg." + s.name, { label: s.name, ty, taint: ["p:" + s.name] });
      I.addRefine(st, single(v), { t: true });
      info.path[s.name] = v;
      return v;
    }
    const isObj = !p.checker.getIndexInfosOfType(t).length && !(t.flags & ts.TypeFlags.Union) && t.getProperties().length;
    const props = {};
    if (isObj)
      for (const f of t.getProperties()) {
        const ft = p.checker.getNonNullableType(p.checker.getTypeOfSymbolAtLocation(f, d));
        const opt = !!(f.flags & ts.SymbolFlags.Optional);
        if (!present && opt) continue;
        const v = S("field." + f.name, { label: f.name, ty: ft.flags & ts.TypeFlags.Union && !(ft.flags & ts.TypeFlags.EnumLike) ? { kind: "any", nullable: false } : tyOf(I, ft), taint: ["f:" + f.name] });
        I.addRefine(st, single(v), { t: true });
        props[f.name] = v;
        info.fields[f.name] = v;
      }
    info.request = isObj ? L.mkObj(I, st, "req", props) : S("arg." + s.name, { label: s.name, ty: { kind: "any", nullable: false }, taint: ["p:" + s.name] });
    info.reqName = s.name;
    return info.request;
  });
  return { args, info };
}
// analyses one call; onFetch(info, args) returns the response outcomes; result: outcomes of awaiting the endpoint
function callEndpoint(p, R, ep, { options, reqOpts, present = true, respond, onFetch, opts, stub, onCall, history }) {
  const X = {};
  const fnode = fetcherNode(p);
  let I;
  I = X.I = R.use(
    L.mkInterp(p, {
      analyseApi: true,
      debugEnabled: false,
      opts: { K: 24, maxSteps: 1e6, ...(opts || {}) },
      onCall: onCall || (() => null),
      stub(node, info) {
        if (!info) return null;
        if (node === fnode) {
          info.st.setFact("requests", (info.st.fact("requests") || 0) + 1);
          if (onFetch) onFetch(info, info.args[0], X.argInfo);
          const outs = [];
          const rs = respond(I, info.st);
          rs.forEach((r, i) => {
            const s = i === rs.length - 1 ? info.st : info.st.clone();
            const v = r.mk(s);
            s.setFact("resp", r.name);
            outs.push({ k: "ret", v: I.alloc(s, "resp:" + r.name, I.resolvedRec(v)), st: s });
          });
          return outs;
        }
        if (L.fnNameOf(node) === "fromPromise" && L.clsName(node) === "HttpResponsePromise") return info.args[0];
        return stub ? stub(node, info) : null;
      },
    }),
  );
  const st = new L.State();
  if (history) {
    X.outs = callHistory(p, I, st, ep, history, X);
    return X;
  }
  const o = options(I, st);
  const outs = [];
  for (const c of L.newInstance(I, st, ep.root, [o], "root")) {
    if (c.k !== "ret") continue;
    let cur = [c];
    for (const seg of ep.path) cur = cur.flatMap((x) => (x.k === "ret" ? I.getProp(x.st, x.v, seg, null, L.root, { i: "seg." + seg }) : [x]));
    for (const x of cur) {
      if (x.k !== "ret") {
        outs.push(x);
        continue;
      }
      const { args, info } = argsFor(p, I, x.st, ep, reqOpts ? reqOpts(I, x.st) : UNDEF, present);
      X.argInfo = info;
      for (const r of L.invoke(I, x.st, x.v, ep.name, args, "ep")) {
        if (r.k !== "ret") outs.push(r);
        else outs.push(...I.awaitVal(r.st, r.v, null, L.root));
      }
    }
  }
  X.outs = outs;
  return X;
}
// one call after another: history.clients name the API clients (options(I, st, name)), history.calls are {on, reqOpts}
function callHistory(p, I, st, ep, history, X) {
  let cur = [{ st, at: {} }];
  for (const name of history.clients)
    cur = cur.flatMap((q) =>
      L.newInstance(I, q.st, ep.root, [history.options(I, q.st, name)], "root" + name).flatMap((c) => {
        if (c.k !== "ret") return [];
        return [{ st: c.st, at: { ...q.at, [name]: c.v } }];
      }),
    );
  const outs = [];
  history.calls.forEach((call, i) => {
    cur = cur.flatMap((q) => {
      let xs = [{ k: "ret", v: q.at[call.on], st: q.st }];
      for (const seg of ep.path) xs = xs.flatMap((x) => (x.k === "ret" ? I.getProp(x.st, x.v, seg, null, L.root, { i: `seg${i}.${seg}` }) : []));
      return xs.flatMap((x) => {
        if (x.k !== "ret") return [];
        x.st.setFact("call", i);
        x.st.setFact("requests", 0);
        const { args, info } = argsFor(p, I, x.st, ep, call.reqOpts ? call.reqOpts(I, x.st) : UNDEF, false);
        X.argInfo = info;
        return L.invoke(I, x.st, x.v, ep.name, args, "ep" + i).flatMap((r) => {
          if (r.k !== "ret") return [{ st: r.st, at: q.at }];
          return I.awaitVal(r.st, r.v, null, L.root).map((w) => {
            outs.push({ i, k: w.k, v: w.v, st: w.st, requests: w.st.fact("requests") });
            return { st: w.st, at: q.at };
          });
        });
      });
    });
  });
  return outs;
}
module.exports = { endpoints, callEndpoint, fetcherNode, clients };
