"use strict";
const { L, V, prop, where } = require("./_common.js");
const { ts } = L;
const { S, C, UNDEF, single, isConst, constOf } = V;
const lab = (v) => (v && v !== UNDEF ? L.labelsOf(v) : "undefined");
const LV = { DEBUG: 0, INFO: 1, WARN: 2, ERROR: 3, NONE: 4 };
const M = { debug: "DEBUG", info: "INFO", warn: "WARN", error: "ERROR" };
module.exports = {
  id: "P45",
  title: "log lines are written exactly when the configured level allows them",
  rule: "For every configured level (environment, configureGlobalLogger, createLogger, setLevel, after reset) and every log method: the message and all its arguments are written once to the console method of its severity exactly if its level is at least the configured one, isLevelEnabled and getLevel agree with that, the global logger is one shared instance; no code outside the logger uses the console or the standard streams",
  assumptions: ["Date.toISOString does not throw"],
  min: 200,
  run(p, R) {
    const expr = (n) => {
      const d = L.declOf(L.needExport(p, "core", n));
      return d.initializer || d;
    };
    const levels = L.enumValues(p, "core", "LogLevel");
    for (const k of Object.keys(LV)) R.ob("levels", levels[k] === LV[k], `LogLevel.${k} is ${levels[k]}`);
    const mk = (env = {}, proc = true) => {
      const X = { I: null };
      X.I = R.use(
        L.mkInterp(p, {
          analyseLogger: true,
          env: { LANGFUSE_DEBUG: env.debug === undefined ? UNDEF : C(env.debug), LANGFUSE_LOG_LEVEL: env.level === undefined ? UNDEF : C(env.level) },
          opts: { K: 24, freshGlobals: true, globals: { process: proc } },
          onCall(info) {
            if (info.callee.k === "bi" && /^console\./.test(info.callee.name)) {
              const n = (info.st.fact("writes") || 0) + 1;
              info.st.setFact("writes", n);
              info.st.setFact("via", info.callee.name.slice(8));
              info.st.setFact("msg", info.args[0] ? info.args[0].key : "");
              info.st.setFact("args", info.args.slice(1).map((a) => a.key).join("|"));
              return [{ k: "ret", v: UNDEF, st: info.st }];
            }
            return null;
          },
        }),
      );
      X.st = new L.State();
      return X;
    };
    const call = (X, n, args, st, q) => L.callFunction(X.I, st, expr(n), args, q || n);
    // all methods of a logger in the given state
    const probe = (tag, X, st, logger, level, more = {}) => {
      for (const [m, ln] of Object.entries(M)) {
        const x1 = S("extra1", { label: "extra1" }), x2 = S("extra2", { label: "extra2" });
        const s0 = st.clone();
        s0.setFact("writes", 0);
        const outs = L.invoke(X.I, s0, logger, m, [C("the-message"), x1, x2], "log" + m);
        R.ob(`${tag}:${m}-reached`, outs.length > 0, "never returns");
        for (const o of outs) {
          const want = LV[ln] >= level ? 1 : 0;
          R.ob(`${tag}:${m}-no-throw`, o.k === "ret", `${m}() throws`);
          R.ob(`${tag}:${m}`, (o.st.fact("writes") || 0) === want, `${m}() writes ${o.st.fact("writes") || 0} lines at level ${level}`);
          // the same line again
          if (o.k === "ret") for (const z of L.invoke(X.I, o.st.clone(), logger, m, [C("the-message"), x1, x2], "again" + m)) R.ob(`${tag}:${m}-again`, (z.st.fact("writes") || 0) === 2 * want, `the second ${m}() of a message writes ${(z.st.fact("writes") || 0) - want} lines at level ${level}`);
          if (want && o.st.fact("writes")) {
            R.ob(`${tag}:${m}-severity`, o.st.fact("via") === m || (m === "debug" && o.st.fact("via") === "log"), `${m}() writes to console.${o.st.fact("via")}`);
            R.ob(`${tag}:${m}-message`, String(o.st.fact("msg")).includes("the-message") && String(o.st.fact("msg")).includes(ln) && (!more.prefix || String(o.st.fact("msg")).includes(more.prefix)), `${m}() writes ${o.st.fact("msg")}`);
            R.ob(`${tag}:${m}-args`, o.st.fact("args") === `${x1.key}|${x2.key}`, `${m}() drops arguments`);
          }
        }
        for (const o of L.invoke(X.I, st.clone(), logger, "isLevelEnabled", [C(LV[ln])], "en" + m)) R.ob(`${tag}:enabled-${m}`, o.k === "ret" && o.v === C(LV[ln] >= level), `isLevelEnabled(${ln}) is ${lab(o.v)} at level ${level}`);
      }
      for (const o of L.invoke(X.I, st.clone(), logger, "getLevel", [], "gl")) R.ob(tag + ":level", o.k === "ret" && o.v === C(level), `getLevel() is ${lab(o.v)} instead of ${level}`);
      R.entry(tag);
    };
    // environment
    const envs = [["unset", {}, 1], ["debug", { debug: "true" }, 0], ["DEBUG over level", { debug: "TRUE", level: "ERROR" }, 0], ["debug false", { debug: "false", level: "WARN" }, 2], ["unknown level", { level: "verbose" }, 1]];
    for (const k of Object.keys(LV)) envs.push([k, { level: k }, LV[k]], [k.toLowerCase(), { level: k.toLowerCase() }, LV[k]]);
    for (const [n, e, lv] of envs) {
      const X = mk(e);
      for (const o of call(X, "getGlobalLogger", [], X.st)) {
        if (!R.ob(`env ${n}:no-throw`, o.k === "ret", "getGlobalLogger throws")) continue;
        probe("env " + n, X, o.st, o.v, lv);
        for (const q of call(X, "getGlobalLogger", [], o.st.clone(), "again")) R.ob(`env ${n}:shared`, q.v === o.v, "getGlobalLogger returns different loggers");
      }
    }
    {
      const X = mk({}, false);
      for (const o of call(X, "getGlobalLogger", [], X.st)) if (R.ob("no process:no-throw", o.k === "ret", "the logger needs a process global")) probe("no process", X, o.st, o.v, 1);
    }
    // after a reset the environment no longer counts; a logger created without configuration does not follow the global one
    for (const [n, e] of envs) {
      const X = mk(e);
      for (const g of call(X, "getGlobalLogger", [], X.st, "g")) for (const z of call(X, "resetGlobalLogger", [], g.st)) for (const q of call(X, "getGlobalLogger", [], z.st, "after")) probe(`env ${n}, reset`, X, q.st, q.v, 1);
      const Y = mk(e);
      for (const g of call(Y, "configureGlobalLogger", [L.mkObj(Y.I, Y.st, "cfg", { level: C(LV.ERROR) })], Y.st))
        for (const o of call(Y, "createLogger", [], g.st)) {
          if (!R.ob("own logger:no-throw", o.k === "ret", "createLogger throws")) continue;
          probe(`env ${n}, own logger without configuration`, Y, o.st, o.v, 1);
          for (const z of L.invoke(Y.I, o.st.clone(), o.v, "setLevel", [C(LV.DEBUG)], "set")) for (const q of call(Y, "getGlobalLogger", [], z.st, "after")) probe(`env ${n}, global logger after a change of another`, Y, q.st, q.v, LV.ERROR);
        }
    }
    // explicit configuration, level changes, reset
    for (const [k, lv] of Object.entries(LV)) {
      for (const used of [false, true])
        for (const ts_ of [undefined, false]) {
          const X = mk({ level: "INFO" });
          const tag = `configure ${k}${used ? " after use" : ""}${ts_ === false ? " without timestamp" : ""}`;
          let sts = [X.st];
          if (used) sts = call(X, "getGlobalLogger", [], X.st, "first").map((o) => o.st);
          for (const s of sts)
            for (const c of call(X, "configureGlobalLogger", [L.mkObj(X.I, s, "cfg", { level: C(lv), prefix: C("my-prefix"), ...(ts_ === false ? { enableTimestamp: C(false) } : {}) })], s))
              for (const o of call(X, "getGlobalLogger", [], c.st)) {
                if (!R.ob(tag + ":no-throw", o.k === "ret", "getGlobalLogger throws")) continue;
                probe(tag, X, o.st, o.v, lv, { prefix: "my-prefix" });
                if (used || ts_ === false) continue;
                for (const [k2, l2] of Object.entries(LV))
                  for (const z of L.invoke(X.I, o.st.clone(), o.v, "setLevel", [C(l2)], "set")) for (const q of call(X, "getGlobalLogger", [], z.st, "after")) probe(`${tag}, setLevel ${k2}`, X, q.st, q.v, l2);
                for (const z of call(X, "resetGlobalLogger", [], o.st.clone())) for (const q of call(X, "getGlobalLogger", [], z.st, "after")) probe(`${tag}, reset`, X, q.st, q.v, 1);
                // an independent logger has its own level
                for (const z of call(X, "createLogger", [L.mkObj(X.I, o.st, "cfg2", { level: C(LV.WARN) })], o.st.clone())) {
                  probe(`${tag}, own logger`, X, z.st, z.v, LV.WARN);
                  for (const y of L.invoke(X.I, z.st.clone(), z.v, "setLevel", [C(LV.NONE)], "set2")) probe(`${tag}, own logger set to NONE`, X, y.st, o.v, lv);
                }
              }
        }
    }
    // loggers made from one configuration object do not share their level
    {
      const X = mk();
      const cfg = L.mkObj(X.I, X.st, "shared", { level: C(LV.WARN) });
      for (const a of call(X, "createLogger", [cfg], X.st, "a")) for (const b of call(X, "createLogger", [cfg], a.st, "b")) for (const z of L.invoke(X.I, b.st, a.v, "setLevel", [C(LV.DEBUG)], "set")) {
        probe("shared configuration, changed", X, z.st, a.v, LV.DEBUG);
        probe("shared configuration, other", X, z.st, b.v, LV.WARN);
      }
    }
    // no other console output
    let refs = 0;
    for (const f of p.repoFiles) {
      const inLogger = /packages\/core\/src\/logger\//.test(f.fileName);
      const walk = (n) => {
        if (ts.isIdentifier(n) && n.text === "console" && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n && !(ts.isIdentifier(n.parent.expression) && ["globalThis", "window", "self", "global"].includes(n.parent.expression.text))) && !ts.isPropertyAssignment(n.parent)) {
          const s = p.checker.getSymbolAtLocation(n);
          const d = s && s.declarations && s.declarations[0];
          if (!d || !p.pkgOf(d.getSourceFile().fileName)) {
            refs++;
            R.ob("console:" + (inLogger ? "logger" : p.loc(n)), inLogger, "the console is used outside of the logger, whatever the log level", { loc: p.loc(n) });
          }
        }
        if (ts.isPropertyAccessExpression(n) && ["stdout", "stderr"].includes(n.name.text) && n.expression.getText() === "process") R.ob("stream:" + p.loc(n), false, "a standard stream is written to directly", { loc: p.loc(n) });
        ts.forEachChild(n, walk);
      };
      walk(f);
    }
    R.ob("console-references", refs >= 1, "no use of the console found");
  },
};
