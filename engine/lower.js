"use strict";
// Lowers a TypeScript function (or initializer expression) to a control-flow graph with
// exceptional edges, explicit short-circuits, duplicated finally blocks and await/yield nodes.
const { ts } = require("./project.js");
const SK = ts.SyntaxKind;

function isFunctionLike(n) {
  return (
    ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n) ||
    ts.isConstructorDeclaration(n) || ts.isGetAccessorDeclaration(n) || ts.isSetAccessorDeclaration(n)
  );
}
// nearest "variable owner" of a declaration: a function-like node, a property declaration (initializer frame) or the source file
function ownerOf(node) {
  let n = node.parent;
  let prev = node;
  while (n) {
    if (isFunctionLike(n)) {
      // decorators / computed names belong outside; ignore
      return n;
    }
    if (ts.isClassStaticBlockDeclaration && ts.isClassStaticBlockDeclaration(n)) return n;
    if (ts.isSourceFile(n)) return n;
    prev = n;
    n = n.parent;
  }
  return prev;
}

class Lowerer {
  constructor(checker) {
    this.checker = checker;
    this.cache = new Map();
    this.exprCache = new Map();
  }
  forFunction(node) {
    let ir = this.cache.get(node);
    if (!ir) {
      ir = new FnLower(this.checker, node).lower();
      this.cache.set(node, ir);
    }
    return ir;
  }
  // pseudo function evaluating one expression (field initializer, module-level initializer)
  forExpr(expr) {
    let ir = this.exprCache.get(expr);
    if (!ir) {
      ir = new FnLower(this.checker, expr).lowerExprFn();
      this.exprCache.set(expr, ir);
    }
    return ir;
  }
}

let synth = 0;

class FnLower {
  constructor(checker, node) {
    this.checker = checker;
    this.node = node;
    this.nodes = [];
    this.cur = [];
    this.tmp = 0;
    this.handler = null; // {entry}
    this.finals = []; // stack of {block, handler, finalsDepth}
    this.loops = []; // {label, brk:[], cont:[] , finalsDepth}
    this.prefix = "$" + ++synth + "_";
    this.syn = 0;
  }
  synVar() {
    return this.prefix + this.syn++;
  }
  t() {
    return this.tmp++;
  }
  emit(op, f, ast) {
    const n = Object.assign({ i: this.nodes.length, op, next: null, exc: this.handler, ast }, f);
    this.nodes.push(n);
    for (const [m, field] of this.cur) m[field] = n.i;
    this.cur = [[n, "next"]];
    return n;
  }
  konst(v, ast) {
    const d = this.t();
    this.emit("const", { dst: d, v }, ast);
    return d;
  }
  lower() {
    const fn = this.node;
    this.entryN = this.emit("entry", {}, fn);
    // parameters
    fn.parameters.filter((p) => !(ts.isIdentifier(p.name) && p.name.text === "this")).forEach((p, idx) => {
      if (p.name && ts.isIdentifier(p.name) && p.name.text === "this") return;
      const d = this.t();
      this.emit("param", { dst: d, idx, rest: !!p.dotDotDotToken }, p);
      let v = d;
      if (p.initializer) v = this.defaulted(d, p.initializer);
      this.bindPattern(p.name, v);
    });
    if (ts.isConstructorDeclaration(fn)) {
      for (const p of fn.parameters) {
        if (p.modifiers && p.modifiers.some((m) => [SK.PrivateKeyword, SK.PublicKeyword, SK.ProtectedKeyword, SK.ReadonlyKeyword].includes(m.kind))) {
          // parameter property
          const th = this.t();
          this.emit("this", { dst: th }, p);
          const v = this.loadIdent(p.name);
          this.emit("setProp", { obj: th, name: p.name.text, src: v }, p);
        }
      }
      if (!this.hasSuper(fn)) this.emit("fieldInit", {}, fn);
    }
    if (fn.body) {
      if (ts.isBlock(fn.body)) {
        this.hoist(fn.body.statements);
        for (const s of fn.body.statements) this.stmt(s);
      } else {
        const v = this.expr(fn.body);
        this.emit("ret", { src: v }, fn.body);
        this.cur = [];
      }
    }
    if (this.cur.length) {
      const u = this.konst(undefined, fn);
      this.emit("ret", { src: u }, fn);
      this.cur = [];
    }
    return this.finish();
  }
  hasSuper(fn) {
    const cls = fn.parent;
    return !!(cls.heritageClauses && cls.heritageClauses.some((h) => h.token === SK.ExtendsKeyword));
  }
  lowerExprFn() {
    this.emit("entry", {}, this.node);
    const v = this.expr(this.node);
    this.emit("ret", { src: v }, this.node);
    this.cur = [];
    return this.finish();
  }
  finish() {
    const fn = this.node;
    const mods = fn.modifiers || [];
    const ir = {
      node: fn,
      nodes: this.nodes,
      entry: 0,
      isAsync: isFunctionLike(fn) && !!mods.some((m) => m.kind === SK.AsyncKeyword),
      isGen: isFunctionLike(fn) && !!fn.asteriskToken,
      isArrow: ts.isArrowFunction(fn),
      hasClosures: false,
    };
    ir.hasClosures = this.nodes.some((n) => n.op === "closure" || n.op === "class");
    // reverse postorder + loop heads
    const N = this.nodes.length;
    const state = new Uint8Array(N);
    const order = [];
    const succ = (n) => {
      const r = [];
      for (const f of ["next", "t", "f", "inject"]) if (n[f] != null) r.push(n[f]);
      if (n.exc && n.exc.entry != null) r.push(n.exc.entry);
      return r;
    };
    const stack = [[0, 0, succ(this.nodes[0])]];
    state[0] = 1;
    while (stack.length) {
      const top = stack[stack.length - 1];
      if (top[1] < top[2].length) {
        const s = top[2][top[1]++];
        if (state[s] === 0) {
          state[s] = 1;
          stack.push([s, 0, succ(this.nodes[s])]);
        } else if (state[s] === 1) this.nodes[s].loopHead = true;
      } else {
        state[top[0]] = 2;
        order.push(top[0]);
        stack.pop();
      }
    }
    order.reverse();
    ir.rpo = new Array(N).fill(1e9);
    order.forEach((n, i) => (ir.rpo[n] = i));
    return ir;
  }
  hoist(stmts) {
    for (const s of stmts)
      if (ts.isFunctionDeclaration(s) && s.name && s.body) {
        const d = this.t();
        this.emit("closure", { dst: d, fn: s }, s);
        this.emit("storeVar", { v: this.symOf(s.name), src: d, decl: true }, s);
      }
  }
  symOf(id) {
    let s = this.checker.getSymbolAtLocation(id);
    return s;
  }
  // ---------- patterns ----------
  defaulted(v, init) {
    const out = this.t();
    this.emit("move", { dst: out, src: v }, init);
    const br = this.emit("br", { src: out, test: "undef" }, init);
    this.cur = [[br, "t"]];
    const d = this.expr(init);
    this.emit("move", { dst: out, src: d }, init);
    this.cur = this.cur.concat([[br, "f"]]);
    this.emit("nop", {}, init);
    return out;
  }
  bindPattern(name, v) {
    if (ts.isIdentifier(name)) {
      this.emit("storeVar", { v: this.symOf(name), src: v, decl: true }, name);
    } else if (ts.isObjectBindingPattern(name)) {
      const used = [], dyn = [];
      for (const el of name.elements) {
        if (el.dotDotDotToken) {
          const d = this.t();
          this.emit("objRest", { dst: d, src: v, excl: used.slice(), exclT: dyn.slice() }, el);
          this.bindPattern(el.name, d);
          continue;
        }
        const pn = el.propertyName || el.name;
        let d = this.t();
        if (ts.isComputedPropertyName(pn)) {
          const k = this.expr(pn.expression);
          dyn.push(k);
          this.emit("getElem", { dst: d, obj: v, key: k }, el);
        } else {
          const key = pn.text;
          used.push(key);
          this.emit("getProp", { dst: d, obj: v, name: key }, el);
        }
        if (el.initializer) d = this.defaulted(d, el.initializer);
        this.bindPattern(el.name, d);
      }
    } else if (ts.isArrayBindingPattern(name)) {
      name.elements.forEach((el, i) => {
        if (ts.isOmittedExpression(el)) return;
        let d = this.t();
        if (el.dotDotDotToken) this.emit("arrRest", { dst: d, src: v, from: i }, el);
        else this.emit("getElemIdx", { dst: d, obj: v, idx: i }, el);
        if (el.initializer) d = this.defaulted(d, el.initializer);
        this.bindPattern(el.name, d);
      });
    }
  }
  assignTo(target, v) {
    target = skip(target);
    if (ts.isIdentifier(target)) {
      this.emit("storeVar", { v: this.symOf(target), src: v }, target);
    } else if (ts.isPropertyAccessExpression(target)) {
      const o = target.expression.kind === SK.SuperKeyword ? this.thisT(target) : this.expr(target.expression);
      this.emit("setProp", { obj: o, name: target.name.text, src: v }, target);
    } else if (ts.isElementAccessExpression(target)) {
      const o = this.expr(target.expression);
      const k = this.expr(target.argumentExpression);
      this.emit("setElem", { obj: o, key: k, src: v }, target);
    } else if (ts.isObjectLiteralExpression(target)) {
      const used = [], dyn = [];
      for (const p of target.properties) {
        const d = this.t();
        if (ts.isShorthandPropertyAssignment(p)) {
          used.push(p.name.text);
          this.emit("getProp", { dst: d, obj: v, name: p.name.text }, p);
          let dd = d;
          if (p.objectAssignmentInitializer) dd = this.defaulted(d, p.objectAssignmentInitializer);
          this.emit("storeVar", { v: this.checker.getShorthandAssignmentValueSymbol(p), src: dd }, p);
        } else if (ts.isPropertyAssignment(p)) {
          if (ts.isComputedPropertyName(p.name)) {
            const k = this.expr(p.name.expression);
            dyn.push(k);
            this.emit("getElem", { dst: d, obj: v, key: k }, p);
          } else {
            used.push(p.name.text);
            this.emit("getProp", { dst: d, obj: v, name: p.name.text }, p);
          }
          this.assignWithDefault(p.initializer, d);
        } else if (ts.isSpreadAssignment(p)) {
          this.emit("objRest", { dst: d, src: v, excl: used.slice(), exclT: dyn.slice() }, p);
          this.assignTo(p.expression, d);
        }
      }
    } else if (ts.isArrayLiteralExpression(target)) {
      target.elements.forEach((el, i) => {
        if (ts.isOmittedExpression(el)) return;
        const d = this.t();
        if (ts.isSpreadElement(el)) {
          this.emit("arrRest", { dst: d, src: v, from: i }, el);
          this.assignTo(el.expression, d);
        } else {
          this.emit("getElemIdx", { dst: d, obj: v, idx: i }, el);
          this.assignWithDefault(el, d);
        }
      });
    }
  }
  assignWithDefault(t, d) {
    t = skip(t);
    if (ts.isBinaryExpression(t) && t.operatorToken.kind === SK.EqualsToken) {
      const dd = this.defaulted(d, t.right);
      this.assignTo(t.left, dd);
    } else this.assignTo(t, d);
  }
  thisT(ast) {
    const d = this.t();
    this.emit("this", { dst: d }, ast);
    return d;
  }
  loadIdent(id, symOverride) {
    const d = this.t();
    const sym = symOverride || this.symOf(id);
    if (id.text === "undefined") this.emit("const", { dst: d, v: undefined }, id);
    else this.emit("loadVar", { dst: d, v: sym, name: id.text }, id);
    return d;
  }
  // ---------- statements ----------
  stmt(s) {
    if (!this.cur.length && !ts.isFunctionDeclaration(s)) return; // unreachable
    if (ts.isBlock(s)) {
      this.hoist(s.statements);
      for (const x of s.statements) this.stmt(x);
    } else if (ts.isVariableStatement(s)) {
      this.varList(s.declarationList);
      this.emit("stmtEnd", {}, s);
    } else if (ts.isExpressionStatement(s)) {
      this.expr(s.expression, true);
      if (this.cur.length) this.emit("stmtEnd", {}, s);
    } else if (ts.isReturnStatement(s)) {
      const v = s.expression ? this.expr(s.expression) : this.konst(undefined, s);
      this.doReturn(v, s);
    } else if (ts.isThrowStatement(s)) {
      const v = this.expr(s.expression);
      this.emit("throw", { src: v }, s);
      this.cur = [];
    } else if (ts.isIfStatement(s)) {
      const [T, F] = this.cond(s.expression);
      this.cur = T;
      if (T.length) {
        this.emit("stmtEnd", {}, s);
        this.stmt(s.thenStatement);
      }
      const afterT = this.cur;
      this.cur = F;
      if (F.length) {
        this.emit("stmtEnd", {}, s);
        if (s.elseStatement) this.stmt(s.elseStatement);
      }
      this.cur = afterT.concat(this.cur);
      if (this.cur.length) this.emit("nop", { join: true }, s);
    } else if (ts.isWhileStatement(s) || ts.isDoStatement(s) || ts.isForStatement(s)) {
      this.loop(s);
    } else if (ts.isForOfStatement(s) || ts.isForInStatement(s)) {
      this.forOf(s);
    } else if (ts.isSwitchStatement(s)) {
      this.switchStmt(s);
    } else if (ts.isTryStatement(s)) {
      this.tryStmt(s);
    } else if (ts.isBreakStatement(s) || ts.isContinueStatement(s)) {
      const isB = ts.isBreakStatement(s);
      let L = null;
      for (let i = this.loops.length - 1; i >= 0; i--) {
        const l = this.loops[i];
        if (s.label ? l.label === s.label.text : isB ? true : !l.isSwitch) {
          L = l;
          break;
        }
      }
      if (!L) return;
      this.runFinals(L.finalsDepth, L.handler);
      (isB ? L.brk : L.cont).push(...this.cur);
      this.cur = [];
    } else if (ts.isLabeledStatement(s)) {
      this.pendingLabel = s.label.text;
      if (ts.isBlock(s.statement)) {
        const L = { label: s.label.text, brk: [], cont: [], finalsDepth: this.finals.length, handler: this.handler, isSwitch: true };
        this.loops.push(L);
        this.stmt(s.statement);
        this.loops.pop();
        this.cur = this.cur.concat(L.brk);
        if (this.cur.length) this.emit("nop", {}, s);
      } else this.stmt(s.statement);
    } else if (ts.isFunctionDeclaration(s) || ts.isEmptyStatement(s) || ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s)) {
      // hoisted / no code
    } else if (ts.isClassDeclaration(s)) {
      const d = this.t();
      this.emit("class", { dst: d, cls: s }, s);
      if (s.name) this.emit("storeVar", { v: this.symOf(s.name), src: d, decl: true }, s);
    } else {
      this.emit("unsupported", { what: SK[s.kind] }, s);
    }
  }
  varList(list) {
    for (const d of list.declarations) {
      let v;
      if (d.initializer) v = this.expr(d.initializer);
      else v = this.konst(undefined, d);
      this.bindPattern(d.name, v);
    }
  }
  runFinals(depth, handler) {
    // lower copies of the finally blocks being left (innermost first)
    const savedF = this.finals;
    const savedH = this.handler;
    for (let i = this.finals.length - 1; i >= depth; i--) {
      const f = savedF[i];
      this.finals = savedF.slice(0, i);
      this.handler = f.outerHandler;
      this.loopsBackup = this.loops;
      this.stmt(f.block);
    }
    this.finals = savedF;
    this.handler = savedH;
  }
  doReturn(v, ast) {
    if (this.finals.length) {
      const sv = this.synVar();
      this.emit("storeSyn", { v: sv, src: v }, ast);
      this.runFinals(0);
      if (this.cur.length) {
        const d = this.t();
        this.emit("loadSyn", { dst: d, v: sv }, ast);
        const h = this.handler;
        this.handler = null;
        this.emit("ret", { src: d }, ast);
        this.handler = h;
      }
    } else this.emit("ret", { src: v }, ast);
    this.cur = [];
  }
  takeLabel() {
    const l = this.pendingLabel;
    this.pendingLabel = null;
    return l;
  }
  loop(s) {
    const label = this.takeLabel();
    if (ts.isForStatement(s) && s.initializer) {
      if (ts.isVariableDeclarationList(s.initializer)) this.varList(s.initializer);
      else this.expr(s.initializer);
      this.emit("stmtEnd", {}, s);
    }
    const L = { label, brk: [], cont: [], finalsDepth: this.finals.length, handler: this.handler };
    const head = this.emit("nop", { join: true, loop: true }, s);
    let F = [];
    if (ts.isDoStatement(s)) {
      this.loops.push(L);
      this.stmt(s.statement);
      this.loops.pop();
      this.cur = this.cur.concat(L.cont);
      if (this.cur.length) {
        this.emit("stmtEnd", {}, s);
        const [T, F2] = this.cond(s.expression);
        for (const [m, f] of T) m[f] = head.i;
        F = F2;
      }
    } else {
      const c = ts.isWhileStatement(s) ? s.expression : s.condition;
      if (c) {
        const [T, F2] = this.cond(c);
        this.cur = T;
        F = F2;
        if (T.length) this.emit("stmtEnd", {}, s);
      }
      this.loops.push(L);
      this.stmt(s.statement);
      this.loops.pop();
      this.cur = this.cur.concat(L.cont);
      if (this.cur.length) {
        this.emit("stmtEnd", {}, s);
        if (ts.isForStatement(s) && s.incrementor) {
          this.expr(s.incrementor, true);
          this.emit("stmtEnd", {}, s);
        }
        for (const [m, f] of this.cur) m[f] = head.i;
      }
    }
    this.cur = F.concat(L.brk);
    if (this.cur.length) this.emit("stmtEnd", {}, s);
  }
  forOf(s) {
    const label = this.takeLabel();
    const src = this.expr(s.expression);
    const iv = this.synVar();
    const isAsync = !!s.awaitModifier;
    this.emit("iterInit", { v: iv, src, forIn: ts.isForInStatement(s), isAsync }, s);
    this.emit("stmtEnd", {}, s);
    const L = { label, brk: [], cont: [], finalsDepth: this.finals.length, handler: this.handler };
    const head = this.emit("nop", { join: true, loop: true }, s);
    const d = this.t();
    const nx = this.emit("iterNext", { v: iv, dst: d, isAsync, forIn: ts.isForInStatement(s) }, s);
    nx.next = undefined;
    this.cur = [[nx, "t"]];
    if (ts.isVariableDeclarationList(s.initializer)) this.bindPattern(s.initializer.declarations[0].name, d);
    else this.assignTo(s.initializer, d);
    this.emit("stmtEnd", {}, s);
    this.loops.push(L);
    this.stmt(s.statement);
    this.loops.pop();
    this.cur = this.cur.concat(L.cont);
    if (this.cur.length) {
      this.emit("stmtEnd", {}, s);
      for (const [m, f] of this.cur) m[f] = head.i;
    }
    this.cur = [[nx, "f"]].concat(L.brk);
    this.emit("stmtEnd", {}, s);
  }
  switchStmt(s) {
    const label = this.takeLabel();
    const disc = this.expr(s.expression);
    const sv = this.synVar();
    this.emit("storeSyn", { v: sv, src: disc }, s);
    const L = { label, brk: [], cont: [], finalsDepth: this.finals.length, handler: this.handler, isSwitch: true };
    const bodies = [];
    let def = -1;
    s.caseBlock.clauses.forEach((c, i) => {
      if (ts.isDefaultClause(c)) {
        def = i;
        bodies.push([]);
        return;
      }
      const d = this.t();
      this.emit("loadSyn", { dst: d, v: sv }, c);
      const e = this.expr(c.expression);
      const r = this.t();
      this.emit("bin", { dst: r, o: "===", a: d, b: e, refA: this.refOf(s.expression), refB: null }, c);
      const br = this.emit("br", { src: r, test: "truthy", narrow: { kind: "eq", ref: this.refOf(s.expression), a: d, b: e } }, c);
      bodies.push([[br, "t"]]);
      this.cur = [[br, "f"]];
    });
    let fall = this.cur;
    this.cur = [];
    this.loops.push(L);
    let endNoDef = fall;
    s.caseBlock.clauses.forEach((c, i) => {
      this.cur = this.cur.concat(bodies[i]);
      if (i === def) {
        this.cur = this.cur.concat(fall);
        endNoDef = [];
      }
      if (this.cur.length) this.emit("stmtEnd", {}, c);
      this.hoist(c.statements);
      for (const x of c.statements) this.stmt(x);
    });
    this.loops.pop();
    this.cur = this.cur.concat(endNoDef, L.brk);
    if (this.cur.length) this.emit("stmtEnd", {}, s);
  }
  tryStmt(s) {
    const outerH = this.handler;
    if (s.finallyBlock) this.finals.push({ block: s.finallyBlock, outerHandler: outerH });
    const hFinal = s.finallyBlock ? { entry: null } : outerH;
    const hTry = s.catchClause ? { entry: null } : hFinal;
    this.handler = hTry;
    this.emit("nop", {}, s);
    this.stmt(s.tryBlock);
    let normal = this.cur;
    if (s.catchClause) {
      this.handler = hFinal;
      this.cur = [];
      const d = this.t();
      const n = this.emit("catch", { dst: d }, s.catchClause);
      hTry.entry = n.i;
      if (s.catchClause.variableDeclaration) this.bindPattern(s.catchClause.variableDeclaration.name, d);
      this.emit("stmtEnd", {}, s.catchClause);
      this.stmt(s.catchClause.block);
      normal = normal.concat(this.cur);
    }
    this.handler = outerH;
    if (s.finallyBlock) {
      this.finals.pop();
      // exceptional copy
      this.cur = [];
      const d = this.t();
      const n = this.emit("catch", { dst: d }, s.finallyBlock);
      hFinal.entry = n.i;
      const sv = this.synVar();
      this.emit("storeSyn", { v: sv, src: d }, s.finallyBlock);
      this.stmt(s.finallyBlock);
      if (this.cur.length) {
        const d2 = this.t();
        this.emit("loadSyn", { dst: d2, v: sv }, s.finallyBlock);
        this.emit("throw", { src: d2, rethrow: true }, s.finallyBlock);
        this.cur = [];
      }
      // normal copy
      this.cur = normal;
      if (normal.length) {
        this.emit("nop", { join: true }, s);
        this.stmt(s.finallyBlock);
      }
    } else {
      this.cur = normal;
      if (normal.length) this.emit("nop", { join: true }, s);
    }
  }
  // ---------- conditions ----------
  refOf(e) {
    e = skip(e);
    if (ts.isIdentifier(e)) return e;
    if (e.kind === SK.ThisKeyword) return e;
    if (ts.isPropertyAccessExpression(e) && this.refOf(e.expression)) return e;
    if (ts.isElementAccessExpression(e) && this.refOf(e.expression) && (ts.isStringLiteralLike(e.argumentExpression) || ts.isIdentifier(e.argumentExpression) || ts.isPropertyAccessExpression(e.argumentExpression))) return e;
    return null;
  }
  // returns [trueDangling, falseDangling]
  cond(e) {
    const x = skip(e);
    if (ts.isPrefixUnaryExpression(x) && x.operator === SK.ExclamationToken) {
      const [T, F] = this.cond(x.operand);
      return [F, T];
    }
    if (ts.isBinaryExpression(x)) {
      const k = x.operatorToken.kind;
      if (k === SK.AmpersandAmpersandToken) {
        const [T, F] = this.cond(x.left);
        this.cur = T;
        if (!T.length) return [[], F];
        const [T2, F2] = this.cond(x.right);
        return [T2, F.concat(F2)];
      }
      if (k === SK.BarBarToken) {
        const [T, F] = this.cond(x.left);
        this.cur = F;
        if (!F.length) return [T, []];
        const [T2, F2] = this.cond(x.right);
        return [T.concat(T2), F2];
      }
    }
    const { r, narrow } = this.condLeaf(x);
    const br = this.emit("br", { src: r, test: "truthy", narrow }, x);
    return [[[br, "t"]], [[br, "f"]]];
  }
  condLeaf(x) {
    if (ts.isBinaryExpression(x)) {
      const k = x.operatorToken.kind;
      const eq = k === SK.EqualsEqualsEqualsToken || k === SK.EqualsEqualsToken;
      const ne = k === SK.ExclamationEqualsEqualsToken || k === SK.ExclamationEqualsToken;
      if (eq || ne) {
        const loose = k === SK.EqualsEqualsToken || k === SK.ExclamationEqualsToken;
        let l = skip(x.left);
        let rr = skip(x.right);
        const a = this.expr(x.left);
        const b = this.expr(x.right);
        const r = this.t();
        this.emit("bin", { dst: r, o: ts.tokenToString(k), a, b }, x);
        let narrow = null;
        if (ts.isTypeOfExpression(l) && this.refOf(l.expression)) narrow = { kind: "typeof", ref: this.refOf(l.expression), b, neg: ne };
        else if (this.refOf(l) && !isNullLit(l)) narrow = { kind: "eq", ref: this.refOf(l), a, b, neg: ne, loose };
        else if (this.refOf(rr) && !isNullLit(rr)) narrow = { kind: "eq", ref: this.refOf(rr), a: b, b: a, neg: ne, loose };
        else narrow = { kind: "eq", ref: null, a, b, neg: ne, loose };
        return { r, narrow };
      }
      if (k === SK.InstanceOfKeyword) {
        const a = this.expr(x.left);
        const b = this.expr(x.right);
        const r = this.t();
        this.emit("bin", { dst: r, o: "instanceof", a, b }, x);
        return { r, narrow: { kind: "instanceof", ref: this.refOf(x.left), a, b } };
      }
    }
    const r = this.expr(x);
    return { r, narrow: this.refOf(x) ? { kind: "truthy", ref: this.refOf(x) } : this.assertRef(x) };
  }
  assertRef(x) {
    // Array.isArray(y) style guards narrow y
    if (ts.isCallExpression(x) && x.arguments.length === 1 && this.refOf(x.arguments[0]) && x.expression.getText() === "Array.isArray") return { kind: "isArray", ref: this.refOf(x.arguments[0]) };
    return null;
  }
  // ---------- expressions ----------
  expr(e, discard) {
    const x = skip(e);
    const constVal = this.enumConst(x);
    if (constVal !== undefined) return this.konst(constVal, x);
    switch (x.kind) {
      case SK.NumericLiteral:
        return this.konst(Number(x.text.replace(/_/g, "")), x);
      case SK.BigIntLiteral:
        return this.konst(x.text, x);
      case SK.StringLiteral:
      case SK.NoSubstitutionTemplateLiteral:
        return this.konst(x.text, x);
      case SK.TrueKeyword:
        return this.konst(true, x);
      case SK.FalseKeyword:
        return this.konst(false, x);
      case SK.NullKeyword:
        return this.konst(null, x);
      case SK.ThisKeyword:
        return this.thisT(x);
      case SK.RegularExpressionLiteral: {
        const d = this.t();
        this.emit("regex", { dst: d, src: x.text }, x);
        return d;
      }
      case SK.Identifier:
        return this.loadIdent(x);
      case SK.TemplateExpression: {
        const parts = [this.konst(x.head.text, x)];
        for (const sp of x.templateSpans) {
          parts.push(this.expr(sp.expression));
          parts.push(this.konst(sp.literal.text, x));
        }
        const d = this.t();
        this.emit("template", { dst: d, parts }, x);
        return d;
      }
      case SK.ArrowFunction:
      case SK.FunctionExpression: {
        const d = this.t();
        this.emit("closure", { dst: d, fn: x }, x);
        return d;
      }
      case SK.ClassExpression: {
        const d = this.t();
        this.emit("class", { dst: d, cls: x }, x);
        return d;
      }
      case SK.ObjectLiteralExpression:
        return this.objLit(x);
      case SK.ArrayLiteralExpression: {
        const d = this.t();
        this.emit("arrNew", { dst: d }, x);
        for (const el of x.elements) {
          if (ts.isSpreadElement(el)) {
            const v = this.expr(el.expression);
            this.emit("arrSpread", { arr: d, src: v }, el);
          } else if (!ts.isOmittedExpression(el)) {
            const v = this.expr(el);
            this.emit("arrPush", { arr: d, src: v }, el);
          }
        }
        return d;
      }
      case SK.PropertyAccessExpression:
      case SK.ElementAccessExpression:
      case SK.CallExpression:
        return this.chainRoot(x);
      case SK.NewExpression: {
        const c = this.expr(x.expression);
        const args = this.args(x.arguments || []);
        const d = this.t();
        this.emit("new", { dst: d, callee: c, args }, x);
        return d;
      }
      case SK.PrefixUnaryExpression: {
        if (x.operator === SK.ExclamationToken) return this.condValue(x);
        if (x.operator === SK.PlusPlusToken || x.operator === SK.MinusMinusToken) return this.incdec(x, true);
        const v = this.expr(x.operand);
        const d = this.t();
        this.emit("un", { dst: d, o: ts.tokenToString(x.operator), a: v }, x);
        return d;
      }
      case SK.PostfixUnaryExpression:
        return this.incdec(x, false);
      case SK.TypeOfExpression: {
        const v = this.expr(x.expression);
        const d = this.t();
        this.emit("un", { dst: d, o: "typeof", a: v }, x);
        return d;
      }
      case SK.VoidExpression: {
        this.expr(x.expression, true);
        return this.konst(undefined, x);
      }
      case SK.DeleteExpression: {
        const t = skip(x.expression);
        if (ts.isPropertyAccessExpression(t)) {
          const o = this.expr(t.expression);
          this.emit("delProp", { obj: o, name: t.name.text }, x);
        } else if (ts.isElementAccessExpression(t)) {
          const o = this.expr(t.expression);
          const k = this.expr(t.argumentExpression);
          this.emit("delElem", { obj: o, key: k }, x);
        }
        return this.konst(true, x);
      }
      case SK.AwaitExpression: {
        const v = this.expr(x.expression);
        const d = this.t();
        this.emit("await", { dst: d, src: v }, x);
        return d;
      }
      case SK.YieldExpression: {
        const v = x.expression ? this.expr(x.expression) : this.konst(undefined, x);
        const d = this.t();
        const n = this.emit("yield", { dst: d, src: v, star: !!x.asteriskToken }, x);
        const saved = this.cur;
        this.cur = [[n, "inject"]];
        const u = this.konst(undefined, x);
        this.doReturn(u, x);
        this.cur = saved;
        return d;
      }
      case SK.ConditionalExpression: {
        const d = this.t();
        const [T, F] = this.cond(x.condition);
        this.cur = T;
        if (T.length) {
          const a = this.expr(x.whenTrue);
          this.emit("move", { dst: d, src: a }, x.whenTrue);
        }
        const ends = this.cur;
        this.cur = F;
        if (F.length) {
          const b = this.expr(x.whenFalse);
          this.emit("move", { dst: d, src: b }, x.whenFalse);
        }
        this.cur = ends.concat(this.cur);
        this.emit("nop", {}, x);
        return d;
      }
      case SK.BinaryExpression:
        return this.binary(x, discard);
      case SK.SpreadElement:
        return this.expr(x.expression);
      case SK.TaggedTemplateExpression: {
        const c = this.expr(x.tag);
        const args = [];
        if (ts.isTemplateExpression(x.template)) for (const sp of x.template.templateSpans) args.push({ t: this.expr(sp.expression) });
        const d = this.t();
        this.emit("call", { dst: d, callee: c, thisT: null, args, name: x.tag.getText() }, x);
        return d;
      }
      case SK.MetaProperty:
        return this.opaque(x);
      case SK.ExpressionWithTypeArguments:
        return this.expr(x.expression);
      default:
        return this.opaque(x);
    }
  }
  opaque(x) {
    const d = this.t();
    this.emit("opaque", { dst: d, what: SK[x.kind] }, x);
    return d;
  }
  enumConst(x) {
    if (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) {
      const v = this.checker.getConstantValue(x);
      return v;
    }
    return undefined;
  }
  condValue(x) {
    const d = this.t();
    const [T, F] = this.cond(x);
    this.cur = T;
    if (T.length) this.emit("const", { dst: d, v: true }, x);
    const ends = this.cur;
    this.cur = F;
    if (F.length) this.emit("const", { dst: d, v: false }, x);
    this.cur = ends.concat(this.cur);
    this.emit("nop", {}, x);
    return d;
  }
  incdec(x, prefix) {
    const old = this.expr(x.operand);
    const one = this.konst(1, x);
    const d = this.t();
    this.emit("bin", { dst: d, o: x.operator === SK.PlusPlusToken ? "+" : "-", a: old, b: one }, x);
    this.assignTo(x.operand, d);
    return prefix ? d : old;
  }
  binary(x, discard) {
    const k = x.operatorToken.kind;
    if (k === SK.CommaToken) {
      this.expr(x.left, true);
      return this.expr(x.right);
    }
    if (k === SK.EqualsToken) {
      const t = skip(x.left);
      // evaluate object part first, as JavaScript does
      if (ts.isPropertyAccessExpression(t) && t.expression.kind !== SK.SuperKeyword) {
        const o = this.expr(t.expression);
        const v = this.expr(x.right);
        this.emit("setProp", { obj: o, name: t.name.text, src: v }, t);
        return v;
      }
      if (ts.isElementAccessExpression(t)) {
        const o = this.expr(t.expression);
        const key = this.expr(t.argumentExpression);
        const v = this.expr(x.right);
        this.emit("setElem", { obj: o, key, src: v }, t);
        return v;
      }
      const v = this.expr(x.right);
      this.assignTo(x.left, v);
      return v;
    }
    if (k === SK.AmpersandAmpersandToken || k === SK.BarBarToken || k === SK.QuestionQuestionToken) {
      return this.shortCircuit(k, () => this.expr(x.left), x.left, () => this.expr(x.right), x);
    }
    if (k === SK.AmpersandAmpersandEqualsToken || k === SK.BarBarEqualsToken || k === SK.QuestionQuestionEqualsToken) {
      const op = k === SK.AmpersandAmpersandEqualsToken ? SK.AmpersandAmpersandToken : k === SK.BarBarEqualsToken ? SK.BarBarToken : SK.QuestionQuestionToken;
      return this.shortCircuit(
        op,
        () => this.expr(x.left),
        x.left,
        () => {
          const v = this.expr(x.right);
          this.assignTo(x.left, v);
          return v;
        },
        x,
      );
    }
    if (k >= SK.FirstCompoundAssignment && k <= SK.LastCompoundAssignment) {
      const a = this.expr(x.left);
      const b = this.expr(x.right);
      const d = this.t();
      this.emit("bin", { dst: d, o: ts.tokenToString(k).slice(0, -1), a, b }, x);
      this.assignTo(x.left, d);
      return d;
    }
    const isCmp = [SK.EqualsEqualsToken, SK.EqualsEqualsEqualsToken, SK.ExclamationEqualsToken, SK.ExclamationEqualsEqualsToken, SK.InstanceOfKeyword].includes(k);
    if (isCmp) return this.condLeaf(x).r;
    const a = this.expr(x.left);
    const b = this.expr(x.right);
    const d = this.t();
    this.emit("bin", { dst: d, o: k === SK.InKeyword ? "in" : ts.tokenToString(k), a, b }, x);
    return d;
  }
  shortCircuit(k, left, leftAst, right, x) {
    const d = this.t();
    const l = skip(leftAst);
    // boolean-valued left sides of && / || : evaluate with narrowing
    const a = left();
    this.emit("move", { dst: d, src: a }, leftAst);
    const br = this.emit("br", { src: d, test: k === SK.QuestionQuestionToken ? "nullish" : "truthy", narrow: this.narrowFor(l, k) }, x);
    const go = k === SK.BarBarToken ? "f" : "t";
    const stop = go === "t" ? "f" : "t";
    this.cur = [[br, go]];
    const b = right();
    if (this.cur.length) this.emit("move", { dst: d, src: b }, x);
    this.cur = this.cur.concat([[br, stop]]);
    this.emit("nop", {}, x);
    return d;
  }
  narrowFor(l, k) {
    const r = this.refOf(l);
    if (r) return { kind: k === SK.QuestionQuestionToken ? "nullish" : "truthy", ref: r };
    return null;
  }
  args(list) {
    const out = [];
    for (const a of list) {
      if (ts.isSpreadElement(a)) out.push({ t: this.expr(a.expression), spread: true });
      else out.push({ t: this.expr(a) });
    }
    return out;
  }
  objLit(x) {
    const d = this.t();
    this.emit("objNew", { dst: d }, x);
    for (const p of x.properties) {
      if (ts.isPropertyAssignment(p)) {
        if (ts.isComputedPropertyName(p.name)) {
          const k = this.expr(p.name.expression);
          const v = this.expr(p.initializer);
          this.emit("setElem", { obj: d, key: k, src: v, init: true }, p);
        } else {
          const v = this.expr(p.initializer);
          this.emit("setProp", { obj: d, name: p.name.text, src: v, init: true }, p);
        }
      } else if (ts.isShorthandPropertyAssignment(p)) {
        const v = this.loadIdent(p.name, this.checker.getShorthandAssignmentValueSymbol(p));
        this.emit("setProp", { obj: d, name: p.name.text, src: v, init: true }, p);
      } else if (ts.isSpreadAssignment(p)) {
        const v = this.expr(p.expression);
        this.emit("objSpread", { obj: d, src: v }, p);
      } else if (ts.isMethodDeclaration(p)) {
        const c = this.t();
        this.emit("closure", { dst: c, fn: p }, p);
        if (ts.isComputedPropertyName(p.name)) {
          const k = this.expr(p.name.expression);
          this.emit("setElem", { obj: d, key: k, src: c, init: true }, p);
        } else this.emit("setProp", { obj: d, name: p.name.text, src: c, init: true }, p);
      } else if (ts.isGetAccessorDeclaration(p)) {
        const c = this.t();
        this.emit("closure", { dst: c, fn: p }, p);
        this.emit("objGetter", { obj: d, name: p.name.text, src: c }, p);
      }
    }
    return d;
  }
  // ---- member / call chains with optional chaining ----
  chainRoot(x) {
    const exits = [];
    const d = this.chain(x, exits);
    if (!exits.length) return d;
    const out = this.t();
    this.emit("move", { dst: out, src: d }, x);
    const ends = this.cur;
    this.cur = exits;
    this.emit("const", { dst: out, v: undefined }, x);
    this.cur = ends.concat(this.cur);
    this.emit("nop", {}, x);
    return out;
  }
  chain(e, exits) {
    // only TS non-null / parens that do not break the chain
    const x = ts.isNonNullExpression(e) ? e.expression : e;
    if (ts.isNonNullExpression(e)) return this.chain(x, exits);
    const cv = this.enumConst(x);
    if (cv !== undefined) return this.konst(cv, x);
    if (ts.isPropertyAccessExpression(x)) {
      if (x.expression.kind === SK.SuperKeyword) {
        const d = this.t();
        this.emit("superGet", { dst: d, name: x.name.text }, x);
        return d;
      }
      const o = this.chain(x.expression, exits);
      if (x.questionDotToken) this.optGuard(o, x, x.expression, exits);
      const d = this.t();
      this.emit("getProp", { dst: d, obj: o, name: x.name.text }, x);
      return d;
    }
    if (ts.isElementAccessExpression(x)) {
      const o = this.chain(x.expression, exits);
      if (x.questionDotToken) this.optGuard(o, x, x.expression, exits);
      const k = this.expr(x.argumentExpression);
      const d = this.t();
      this.emit("getElem", { dst: d, obj: o, key: k }, x);
      return d;
    }
    if (ts.isCallExpression(x)) {
      const c = skip(x.expression);
      if (c.kind === SK.SuperKeyword) {
        const args = this.args(x.arguments);
        const d = this.t();
        this.emit("superCall", { dst: d, args }, x);
        this.emit("fieldInit", {}, x);
        return d;
      }
      if (c.kind === SK.ImportKeyword) {
        const args = this.args(x.arguments);
        return this.opaque(x);
      }
      let callee;
      let thisT = null;
      let name = null;
      if (ts.isPropertyAccessExpression(c) && c.expression.kind === SK.SuperKeyword) {
        callee = this.t();
        this.emit("superGet", { dst: callee, name: c.name.text }, c);
        thisT = this.thisT(c);
        name = c.name.text;
      } else if (ts.isPropertyAccessExpression(c)) {
        thisT = this.chain(c.expression, exits);
        if (c.questionDotToken) this.optGuard(thisT, c, c.expression, exits);
        callee = this.t();
        name = c.name.text;
        this.emit("getProp", { dst: callee, obj: thisT, name, forCall: true }, c);
      } else if (ts.isElementAccessExpression(c)) {
        thisT = this.chain(c.expression, exits);
        if (c.questionDotToken) this.optGuard(thisT, c, c.expression, exits);
        const k = this.expr(c.argumentExpression);
        callee = this.t();
        this.emit("getElem", { dst: callee, obj: thisT, key: k, forCall: true }, c);
      } else {
        callee = this.chain(c, exits);
        if (ts.isIdentifier(c)) name = c.text;
      }
      if (x.questionDotToken) this.optGuard(callee, x, x.expression, exits);
      const args = this.args(x.arguments);
      const d = this.t();
      this.emit("call", { dst: d, callee, thisT, args, name }, x);
      return d;
    }
    return this.expr(x);
  }
  optGuard(o, x, base, exits) {
    const br = this.emit("br", { src: o, test: "nullish", narrow: this.refOf(base) ? { kind: "nullish", ref: this.refOf(base) } : null }, x);
    exits.push([br, "t"]);
    this.cur = [[br, "f"]];
  }
}

function skip(e) {
  while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)) || ts.isPartiallyEmittedExpression?.(e)) e = e.expression;
  return e;
}
function isNullLit(e) {
  return e.kind === SK.NullKeyword || (ts.isIdentifier(e) && e.text === "undefined");
}

module.exports = { Lowerer, isFunctionLike, ownerOf, skip };
