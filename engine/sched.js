"use strict";
// Explicit event-loop semantics over the abstract states: suspended async functions advance from one await to the next,
// in the order in which they started to wait; external promises settle (and timers fire) in every order and with every outcome.
const { V } = (() => ({ V: require("./values.js") }))();
const { eqState } = require("./interp.js");
const { objAtom, UNDEF } = V;
const DONE = new Set(["resolved", "rejected"]);
class Sched {
  constructor(I, opts = {}) {
    this.I = I;
    this.imprecise = null;
    this.paths = 0;
    this.steps = 0;
    const deep = (process.argv[3] || process.env.VERIF_TIER) === "thorough";
    this.maxPaths = (opts.maxPaths || 1200) * (deep ? 10 : 1);
    this.maxSteps = (opts.maxSteps || 60000) * (deep ? 10 : 1);
    this.allow = null;
  }
  unsettled(st, v, d = 0) {
    return v.atoms.some((a) => !this.ready(st, a, d));
  }
  ready(st, a, d = 0) {
    if (a.k !== "obj" || d > 20) return true;
    const r = st.rec(a);
    if (!r || r.t !== "promise") return true;
    if (r.s === "resolved") return !this.unsettled(st, r.v, d + 1);
    if (r.s === "rejected") return true;
    if (r.busy || r.s === "ext" || r.s === "pending") return false;
    if (r.s === "then") return !this.unsettled(st, r.parent, d + 1);
    if (["all", "settled", "race", "any"].includes(r.s)) {
      const it = this.I.listOf(st, r.list, null, null);
      const vs = it.elems ? it.elems.map((e) => e.v) : [it.sum];
      if (r.s === "race") return vs.some((v) => !this.unsettled(st, v, d + 1));
      if (r.s === "all" && vs.some((v) => v && v.atoms.some((x) => x.k === "obj" && (st.rec(x) || {}).s === "rejected"))) return true;
      return vs.every((v) => !v || !this.unsettled(st, v, d + 1));
    }
    return true;
  }
  // reported by the interpreter when it has to run a promise the event loop has not settled yet
  forced(st, a) {
    const r = st.rec(a);
    if (DONE.has(r.s) || (this.allow && this.allow === a.id)) return;
    if (r.s === "ext" || r.s === "pending") this.imprecise = this.imprecise || `${r.s} ${r.label || r.token || a.id}`;
  }
  // one task: the lowest-numbered runnable continuation, or a derived promise whose inputs have settled
  next(st) {
    let best = null;
    for (const [k, r] of st.heap) {
      if (!r || r.t !== "promise" || r.busy || DONE.has(r.s)) continue;
      if (r.s === "pending" && r.cont) {
        const n = r.cont.ir.nodes[r.cont.n];
        if (n.op !== "await") {
          this.imprecise = this.imprecise || "suspended at " + n.op;
          continue;
        }
        const v = r.cont.tmp.get(n.src);
        if (v && this.unsettled(st, v)) continue;
        if (!best || (r.cont.seq || 0) < best.seq) best = { k, seq: r.cont.seq || 0, cont: true };
      } else if (["then", "all", "settled", "race"].includes(r.s) && this.ready(st, objAtom(k.slice(2)))) return { k, derived: true };
    }
    return best;
  }
  run(st, t) {
    const I = this.I;
    const a = objAtom(t.k.slice(2));
    if (++this.steps > this.maxSteps) {
      this.bounded = true;
      return [];
    }
    if (!t.cont) {
      this.allow = a.id;
      const r = I.force(st, a, this.root, false).map((o) => o.st);
      this.allow = null;
      return r;
    }
    const c = st.rec(a).cont;
    const saved = st.tmp;
    st.tmp = new Map(c.tmp);
    I.resuming = true;
    I.stack.push(`${I.fnName(c.frame.node)} resumed (${I.p.loc(c.ir.nodes[c.n].ast)})`);
    let outs;
    try {
      outs = I.runIR(c.ir, c.frame, c.n, st, "step");
    } finally {
      I.stack.pop();
      I.resuming = false;
    }
    const res = [];
    for (const o of outs) {
      o.st.tmp = new Map(saved);
      if (o.k === "susp") {
        I.setProm(o.st, a, { cont: o.cont });
        res.push(o.st);
      } else if (o.k === "ret" && this.unsettled(o.st, o.v)) {
        // the promise returned by an async function is adopted
        I.setProm(o.st, a, { s: "then", cont: null, parent: o.v, onF: null, onR: null, fin: null });
        for (const x of o.v.atoms) if (I.isPromiseAtom(o.st, x)) I.setProm(o.st, x, { handled: true, reactions: o.st.rec(x).reactions.concat([a.id]) });
        res.push(o.st);
      } else res.push(...I.finishForce([o], a, this.root).map((q) => q.st));
    }
    return res;
  }
  exts(st) {
    const r = [];
    for (const [k, rec] of st.heap) if (rec && rec.t === "promise" && rec.s === "ext" && !rec.busy) r.push({ k, label: rec.label || rec.token });
    return r;
  }
  timers(st) {
    const r = st.rec(objAtom("$timers"));
    return r && r.elems ? r.elems.map((e, i) => i) : [];
  }
  fire(st, i) {
    const tm = objAtom("$timers");
    const r = st.rec(tm);
    const e = r.elems[i];
    st.setRec(tm, { ...r, elems: r.elems.filter((_, j) => j !== i) });
    return this.I.call(st, e.v, UNDEF, [], null, this.root, `timer${i}:${this.steps}`, null).map((o) => o.st);
  }
  // follow every schedule from st. opts: watch [{v, check(st, outcome, value)}], onEnd(st), timers, ext(st, e) filter, acts [{name, run(st) -> states}] done once each at any point
  explore(st, opts = {}) {
    const I = this.I;
    const watch = opts.watch || [];
    this.root = opts.root;
    I.sched = this;
    const checkWatch = (s) => {
      watch.forEach((w, i) => {
        if (s.fact("watched" + i)) return;
        if (!w.v) return;
        const a = w.v.atoms[0];
        const r = a && s.rec(a);
        if (r && r.t === "promise" && DONE.has(r.s) && (r.s === "rejected" || !this.unsettled(s, r.v))) {
          s.setFact("watched" + i);
          w.check(s, r.s === "resolved" ? "ret" : "throw", r.v);
        }
      });
    };
    const quiesce = (s0) => {
      const done = [], todo = [s0];
      let n = 0;
      while (todo.length) {
        const s = todo.pop();
        checkWatch(s);
        const t = this.next(s);
        if (!t) {
          done.push(s);
          continue;
        }
        if (++n > 3000) {
          this.bounded = true;
          break;
        }
        todo.push(...this.run(s, t));
        if (this.imprecise) break;
      }
      return done;
    };
    // states that differ in nothing have the same future: the order of waiting continuations is part of the state
    const seen = new Map();
    const order = (s) => [...s.heap].filter(([, r]) => r && r.t === "promise" && r.s === "pending" && r.cont).sort((a, b) => a[1].cont.seq - b[1].cont.seq).map(([k]) => k).join();
    const visited = (s, acts) => {
      const key = s.factKey() + "|" + (acts || []).map((x) => opts.acts.indexOf(x)).join() + "|" + order(s);
      const l = seen.get(key);
      if (!l) seen.set(key, [s]);
      else if (l.some((x) => eqState(s, x))) return true;
      else l.push(s);
      return false;
    };
    const go = (s0, acts, depth) => {
      if (this.imprecise || this.bounded) return;
      for (const s of quiesce(s0)) {
        if (this.imprecise || this.bounded) return;
        s.tmp = new Map();
        if (visited(s, acts)) {
          this.same = (this.same || 0) + 1;
          continue;
        }
        const choices = [];
        for (const e of this.exts(s)) if (!opts.ext || opts.ext(s, e)) choices.push((x) => { this.allow = e.k.slice(2); const r = I.force(x, objAtom(e.k.slice(2)), this.root, false).map((o) => o.st); this.allow = null; return r; });
        if (opts.timers) for (const i of this.timers(s)) choices.push((x) => this.fire(x, i));
        const more = (acts || []).slice(0, opts.anyOrder ? undefined : 1);
        if (!choices.length && !more.length) {
          if (++this.paths > this.maxPaths) this.bounded = true;
          if (opts.onEnd) opts.onEnd(s);
          continue;
        }
        if (depth > (opts.maxDepth || 40)) {
          this.bounded = true;
          return;
        }
        for (const c of choices) for (const q of c(s.clone())) go(q, acts, depth + 1);
        for (const m of more) for (const q of m(s.clone())) go(q, acts.filter((x) => x !== m), depth + 1);
      }
    };
    const all = () => {
      try {
        go(st, opts.acts, 0);
      } finally {
        I.sched = null;
        I.resuming = false;
      }
      return !this.imprecise;
    };
    if (opts.R) opts.R.tentative(all);
    else all();
    return { imprecise: this.imprecise, same: this.same || 0, paths: this.paths, bounded: !!this.bounded };
  }
}
module.exports = { Sched };
