"use strict";
const { L, V, prop, where } = require("./_common.js");
const { S, C, UNDEF, single } = V;
const { ts } = L;
module.exports = {
  id: "P15",
  title: "compiling a prompt substitutes verbatim, in place and without touching the prompt",
  rule: "For text and chat prompts with unknown contents: compile() renders every message's content with the caller's variables and without HTML escaping, keeps roles and order, replaces a placeholder by the given messages, drops it for an empty list, keeps it when not given, and leaves the prompt object unchanged",
  assumptions: ["the template engine's substitution itself (mustache) is external; its escape hook is proven to be the identity"],
  min: 14,
  run(p, R) {
    // 1. the escape hook of the template engine is the identity before any prompt can be compiled
    const clsT = L.findClass(p, "client", "TextPromptClient");
    const clsC = L.findClass(p, "client", "ChatPromptClient");
    const idFns = [];
    let I = R.use(L.mkInterp(p, {}));
    const isIdentity = (node) => {
      const outs = L.callFunction(I, new L.State(), node, [L.symStr("text")], "esc");
      return outs.length > 0 && outs.every((o) => o.k === "ret" && o.v === L.symStr("text"));
    };
    const fnOf = (e) => {
      e = require("../engine/lower.js").skip(e);
      if (L.isFunctionLike(e)) return e;
      const s = p.checker.getSymbolAtLocation(e);
      let q = s && s.flags & ts.SymbolFlags.Alias ? p.checker.getAliasedSymbol(s) : s;
      const d = q && q.valueDeclaration;
      if (d && L.isFunctionLike(d)) return d;
      if (d && ts.isVariableDeclaration(d) && d.initializer && L.isFunctionLike(require("../engine/lower.js").skip(d.initializer))) return require("../engine/lower.js").skip(d.initializer);
      return null;
    };
    for (const f of p.repoFiles) {
      if (p.pkgOf(f.fileName) !== "client") continue;
      for (const s of f.statements) {
        const e = ts.isExpressionStatement(s) && s.expression;
        if (!e || !ts.isBinaryExpression(e) || e.operatorToken.kind !== ts.SyntaxKind.EqualsToken) continue;
        const l = e.left;
        if (!ts.isPropertyAccessExpression(l) || l.name.text !== "escape") continue;
        const sy = p.checker.getSymbolAtLocation(l.expression);
        const imp = sy && sy.declarations && sy.declarations[0];
        const from = imp && (function up(n) { return !n ? null : ts.isImportDeclaration(n) ? n.moduleSpecifier.text : up(n.parent); })(imp);
        if (from !== "mustache") continue;
        const fn = fnOf(e.right);
        idFns.push({ file: f.fileName, ok: !!fn && isIdentity(fn), loc: p.loc(s) });
      }
    }
    const declFiles = [clsT.getSourceFile().fileName, clsC.getSourceFile().fileName];
    const globalOk = idFns.length > 0 && idFns.every((x) => x.ok) && idFns.some((x) => declFiles.includes(x.file));
    // 2. scenarios
    let renders;
    const hooks = {
      onCall(info) {
        if (info.name === "render" && info.decl === undefined && info.callee.k !== "sym") return null;
        if (info.name === "render" && (info.callee.k === "sym" || info.callee.k === "top")) {
          const cfg = info.args[3];
          let own = false;
          if (cfg && single(cfg)) {
            const e = prop(info.st, cfg, "escape");
            const a = e && single(e);
            own = a && a.k === "fn" && isIdentity(a.node);
            if (e && !own) R.ob("escape:identity", false, "rendering uses an escape function that is not the identity", where(info.interp, info));
          }
          R.ob("escape:identity", own || globalOk, "prompt variables are substituted with HTML escaping", where(info.interp, info));
          renders++;
          return S(`R(${info.args[0].key};${info.args[1] ? info.args[1].key : "?"})`, { label: "rendered", ty: { kind: "string", nullable: false }, tmpl: info.args[0], vars: info.args[1] });
        }
        return null;
      },
    };
    const rendered = (v, tmpl, vars, st) => {
      const a = v && single(v);
      if (!a || a.tmpl !== tmpl) return false;
      if (vars) return a.vars === vars;
      const r = a.vars && single(a.vars) && st.rec(single(a.vars));
      return r && r.t === "obj" && r.props.size === 0 && !r.open;
    };
    const data = (I, st, type, prompt) => L.mkObj(I, st, "resp", { type: C(type), name: L.symStr("name"), version: C(1), prompt, config: S("cfg"), labels: S("labels"), tags: S("tags") });
    for (const withVars of [true, false]) {
      renders = 0;
      I = R.use(L.mkInterp(p, hooks));
      const st = new L.State();
      const vars = L.symObj("vars");
      for (const c of L.newInstance(I, st, clsT, [data(I, st, "text", L.symStr("tmpl"))])) {
        if (c.k !== "ret") continue;
        for (const o of L.invoke(I, c.st, c.v, "compile", withVars ? [vars] : [], "compile")) {
          R.ob(`text:${withVars}:value`, o.k === "ret" && rendered(o.v, L.symStr("tmpl"), withVars && vars, o.st), "compile() does not return the template rendered with the caller's variables");
          R.ob(`text:${withVars}:unchanged`, prop(o.st, c.v, "prompt") === L.symStr("tmpl"), "compile() changes the prompt");
        }
      }
      R.ob(`text:${withVars}:reached`, renders > 0, "the text template is never rendered");
      R.entry(`TextPromptClient.compile(${withVars ? "vars" : ""})`);
    }
    const PH = ["absent", "empty", "one", "messages", "value"];
    for (const ph of PH)
      for (const withVars of [true, false]) {
        const tag = `chat:${ph}:${withVars ? "vars" : "no-vars"}`;
        I = R.use(L.mkInterp(p, hooks));
        const st = new L.State();
        const vars = L.symObj("vars");
        const m = (i, extra = {}) => L.mkObj(I, st, "m" + i, { ...extra, role: S("role" + i, { ty: { kind: "string", nullable: false } }), content: L.symStr("content" + i) });
        const place = L.mkObj(I, st, "ph", { type: C("placeholder"), name: C("h") });
        const msgs = L.mkArr(I, st, "msgs", [m(0, { type: C("chatmessage") }), place, m(1)]);
        const phv = { absent: null, empty: L.mkArr(I, st, "e", []), one: L.mkArr(I, st, "pm", [m(2)]), messages: L.mkArr(I, st, "pm2", [m(2), m(3)]), value: L.symStr("plain") }[ph];
        const phs = ph === "absent" ? L.mkObj(I, st, "phs", {}) : L.mkObj(I, st, "phs", { h: phv });
        let n = 0;
        for (const c of L.newInstance(I, st, clsC, [data(I, st, "chat", msgs)])) {
          if (c.k !== "ret") continue;
          const before = c.st.clone();
          for (const o of L.invoke(I, c.st, c.v, "compile", [withVars ? vars : UNDEF, phs], "compile")) {
            if (!R.ob(tag + ":no-throw", o.k === "ret", "compile() throws")) continue;
            n++;
            const arr = single(o.v) && o.st.rec(single(o.v));
            const out = arr && arr.elems && !arr.elems.some((e) => e.m) ? arr.elems.map((e) => e.v) : null;
            if (!R.ob(tag + ":list", !!out, "the compiled messages are not a definite list")) continue;
            const want = [0, ...(ph === "messages" ? [2, 3] : ph === "one" ? [2] : ph === "empty" ? [] : ["ph"]), 1];
            if (!R.ob(tag + ":count", out.length === want.length, `compile() yields ${out.length} messages, expected ${want.length}`)) continue;
            want.forEach((w, i) => {
              if (w === "ph") {
                if (ph === "absent") R.ob(tag + ":placeholder-kept", prop(o.st, out[i], "type") === C("placeholder") && prop(o.st, out[i], "name") === C("h"), "an unresolved placeholder is not kept in the output");
                return;
              }
              R.ob(`${tag}:role${w}`, prop(o.st, out[i], "role") === S("role" + w, { ty: { kind: "string", nullable: false } }), "a message's role or position is changed");
              R.ob(`${tag}:content${w}`, rendered(prop(o.st, out[i], "content"), L.symStr("content" + w), withVars && vars, o.st), "a message's content is not its own template rendered with the caller's variables");
            });
            for (const k of ["msgs", "m0", "m1", "m2", "m3", "ph", "pm"]) {
              const key = V.objAtom(k).key;
              const x = before.heap.get(key), y = o.st.heap.get(key);
              if (!x) continue;
              const same = x === y || (x.props && y && x.props.size === y.props.size && [...x.props].every(([q, w]) => y.props.get(q) === w) && (!x.elems || (y.elems && x.elems.length === y.elems.length && x.elems.every((e, i) => e.v === y.elems[i].v))));
              R.ob(`${tag}:unchanged`, same, "compile() modifies the prompt or the caller's placeholder messages");
            }
          }
        }
        R.ob(tag + ":reached", n > 0, "compile() of a chat prompt could not be followed");
        R.entry("ChatPromptClient.compile " + tag);
      }
  },
};
