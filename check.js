#!/usr/bin/env node
"use strict";
// usage: node check.js <PROPERTY> [quick|thorough]
// Decides one property by static analysis of /repo's current source. Exit 0: holds; exit 1: VIOLATION line printed.
const fs = require("fs");
const path = require("path");
const t0 = Date.now();
const id = process.argv[2];
const tier = process.argv[3] || process.env.VERIF_TIER || "quick";
const seed = Number(process.env.VERIF_SEED || 1);
const { loadProject, AnchorError } = require("./engine/scenario.js");
const { BudgetError } = require("./engine/interp.js");

function knownFindings() {
  const f = path.join(__dirname, "known-findings.txt");
  if (!fs.existsSync(f)) return [];
  return fs
    .readFileSync(f, "utf8")
    .split("\n")
    .map((l) => /^finding: property=(\S+) key=(\S+) (.*)$/.exec(l))
    .filter(Boolean)
    .map((m) => ({ property: m[1], key: m[2], what: m[3] }));
}

class Reporter {
  constructor(tier) {
    this.tier = tier;
    this.obligations = []; // {key, ok, detail, loc, path}
    this.notes = [];
    this.undecided = [];
    this.interps = [];
    this.analysed = { functions: new Set(), entries: [] };
  }
  // one proof obligation; key must not contain line numbers (identity of the finding)
  ob(key, ok, detail, extra = {}) {
    const e = this.obligations.find((o) => o.key === key);
    if (e) {
      e.n++;
      if (!ok && e.ok) Object.assign(e, { ok: false, detail, ...extra });
      return ok;
    }
    this.obligations.push({ key, ok: !!ok, detail, n: 1, ...extra });
    return ok;
  }
  // obligations recorded by fn count only if it returns true (an exploration that turned out imprecise is discarded)
  tentative(fn) {
    const saved = this.obligations;
    this.obligations = saved.map((o) => ({ ...o }));
    let keep = false;
    try {
      keep = fn();
    } finally {
      if (!keep) this.obligations = saved;
    }
  }
  note(s) {
    if (!this.notes.includes(s)) this.notes.push(s);
  }
  use(I) {
    this.interps.push(I);
    return I;
  }
  entry(name) {
    this.analysed.entries.push(name);
  }
}

function main() {
  const rule = require(`./rules/${id}.js`);
  const R = new Reporter(tier);
  let p;
  p = loadProject();
  R.p = p;
  try {
    rule.run(p, R);
  } catch (e) {
    if (e instanceof AnchorError) R.ob("anchor:" + e.message.replace(/[^A-Za-z0-9_.]+/g, "-"), false, "analysis anchor missing: " + e.message);
    else if (e instanceof BudgetError) R.undecided.push(e.message);
    else if (process.env.VERIF_DEBUG) throw e;
    else R.undecided.push("the analyser failed: " + String(e && e.stack).split("\n").slice(0, 3).join(" "));
  }
  const fns = new Set();
  let steps = 0, nodes = 0, calls = 0, ext = 0, awaits = 0, merges = 0;
  for (const I of R.interps) {
    for (const f of I.stats.functions) fns.add(f);
    steps += I.steps;
    nodes += I.stats.nodes.size;
    calls += I.stats.calls;
    ext += I.stats.extCalls;
    awaits += I.stats.awaits;
    merges += I.stats.merges;
    for (const u of I.stats.unsupported) R.note("unsupported construct: " + u);
  }
  if (rule.min && R.obligations.length < rule.min && !R.undecided.length && R.obligations.every((o) => o.ok)) R.ob("anchor:too-few-obligations", false, `only ${R.obligations.length} obligations were found, at least ${rule.min} are expected: the analysed mechanism is no longer where the rule can see it`);
  const known = knownFindings().filter((k) => k.property === id);
  const bad = R.obligations.filter((o) => !o.ok);
  const fresh = [];
  for (const b of bad) {
    const k = known.find((x) => x.key === b.key);
    if (k) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
    else fresh.push(b);
  }
  const wall = (Date.now() - t0) / 1000;
  const evDir = path.join(__dirname, "evidence");
  fs.mkdirSync(evDir, { recursive: true });
  const I0 = R.interps[0];
  const ev = {
    property: id,
    tier,
    seed,
    level: rule.level || "other",
    coverage: {
      explanation: rule.explanation || "abstract interpretation of the current source; every obligation below was decided on all abstract paths from the listed entry points",
      rule: rule.rule || rule.title,
      obligations: R.obligations.length,
      obligation_instances: R.obligations.reduce((a, o) => a + o.n, 0),
      obligations_failed: bad.length,
      obligation_list: R.obligations.map((o) => `${o.ok ? "ok " : "FAIL "}${o.key} (x${o.n})`).slice(0, 400),
      entry_points: R.analysed.entries.slice(0, 200),
      entry_point_count: R.analysed.entries.length,
      functions_analysed: fns.size,
      function_list: [...fns].map((f) => (I0 ? I0.fnName(f) : "?") + " " + p.loc(f)).sort().slice(0, 120),
      cfg_nodes_visited: nodes,
      abstract_steps: steps,
      calls_resolved: calls,
      external_calls: ext,
      awaits_modelled: awaits,
      state_merges: merges,
      source_files: p.repoFiles.length,
      undecided: R.undecided,
      notes: R.notes.slice(0, 50),
      ...(R.extra || {}),
    },
    assumptions: rule.assumptions || [],
    wall_s: wall,
    violations: fresh.length,
  };
  fs.writeFileSync(path.join(evDir, `${id}.json`), JSON.stringify(ev, null, 1));
  console.log(`${id}: ${R.obligations.length} obligations (${ev.coverage.obligation_instances} instances), ${fns.size} functions, ${nodes} CFG nodes, ${steps} abstract steps, ${bad.length} failed, ${wall.toFixed(1)}s`);
  for (const n of R.notes.slice(0, 10)) console.log("note: " + n);
  for (const u of R.undecided) console.log("UNDECIDED: " + u);
  if (fresh.length) {
    const rp = path.join(evDir, `${id}.replay.json`);
    fs.writeFileSync(rp, JSON.stringify({ property: id, violations: fresh }, null, 1));
    for (const b of fresh) {
      console.log(`  rule ${b.key}`);
      console.log(`    ${b.detail}`);
      if (b.loc) console.log(`    at ${b.loc}`);
      if (b.path && b.path.length) console.log(`    via ${b.path.join(" -> ")}`);
    }
    console.log(`VIOLATION property=${id} replay=${rp}`);
    process.exit(1);
  }
  process.exit(0);
}
main();
