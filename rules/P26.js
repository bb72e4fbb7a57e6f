"use strict";
const { L, V, prop, where } = require("./_common.js");
const { mkTracing, TYPES, CLASS_OF, keysOf } = require("./_tracing.js");
const { S, C, UNDEF, TRUE, FALSE, single } = V;
module.exports = {
  id: "P26",
  title: "an observation has the requested type, name, start time and identity, and keeps them",
  rule: "For each of the ten observation types and every way to create one (startObservation, a parent's startObservation, startActiveObservation, observe): the span gets the requested name and start time, its type attribute is the requested type (span if none), the object's type, id and trace id are those of its own span, attributes given at creation are set on that span; later updates go to that span and never change its type; end() ends that span at the given time, and an event ends at its start time with its attributes set; updateActiveObservation changes the type only when asked to",
  assumptions: [],
  min: 60,
  run(p, R) {
    const E = L.enumValues(p, "core", "LangfuseOtelSpanAttributes");
    const T = E.OBSERVATION_TYPE;
    const START = S("start", { label: "start", ty: { kind: "object", nullable: false } });
    const APIS = ["startObservation", "child", "startActiveObservation", "observe"];
    for (const api of APIS)
      for (const t of TYPES.concat([null])) {
        const want = t || "span";
        const tag = `${api}:${t || "default"}`;
        let n = 0, updating = false, ending = false, target = api === "child" ? 2 : 1;
        const checkObs = (st, v, how) => {
          const r = v && single(v) && st.rec(single(v));
          if (!R.ob(tag + ":object", r && r.cls, `${how} does not give an observation`)) return;
          R.ob(tag + ":class", r.cls.name.text === CLASS_OF(want), `${how} gives a ${r.cls.name.text}`);
          R.ob(tag + ":type", r.props.get("type") === C(want), `${how} gives an observation of type ${L.labelsOf(r.props.get("type") || UNDEF)}`);
          R.ob(tag + ":ids", r.props.get("id") === L.symStr("spanId" + target) && r.props.get("traceId") === L.symStr("traceId" + target), "the observation's id or trace id is not that of its span");
          R.ob(tag + ":span", r.props.get("otelSpan") && r.props.get("otelSpan") === S("span" + target), "the observation wraps another span");
          n++;
        };
        const X = mkTracing(p, R, {
          onEnd(info, k) {
            // an event is a point in time: it ends where it starts; others end when told, at the time given
            const W = where(info.interp, info);
            if (ending) R.ob(tag + ":end-time", k === target && info.args[0] === S("endTime"), "end() ends another span or loses the end time", W);
            else if (want === "event" && k === target && info.st.fact("ended" + k) === 1) {
              const isStart = info.args[0] === START;
              R.ob(tag + ":event-end", api === "startObservation" || api === "startActiveObservation" ? isStart : info.args[0] && info.args[0] !== UNDEF, "an event does not end at its start time", W);
              R.ob(tag + ":event-attributes", info.st.fact("typed"), "an event is ended before its attributes are set", W);
            }
          },
          onStart(info, k) {
            if (k !== target) return;
            const W = where(info.interp, info);
            R.ob(tag + ":name", info.args[0] === L.symStr("nm"), `the span is named ${L.labelsOf(info.args[0])}`, W);
            const stt = prop(info.st, info.args[1], "startTime");
            if (api === "startObservation" || api === "startActiveObservation") R.ob(tag + ":start-time", stt === START, "the start time is not passed on", W);
          },
          onAttrs(info, k) {
            const st = info.st, W = where(info.interp, info);
            if (api === "child" && k === 1 && !updating) return;
            R.ob(tag + ":own-span", k === target, "attributes are set on another span", W);
            const ks = keysOf(st, info.args[0]);
            if (!R.ob(tag + ":definite", ks, "attributes of the observation are not definite", W)) return;
            const tv = ks.get(T);
            if (!st.fact("typed")) {
              R.ob(tag + ":type-attribute", tv === C(want), `the type attribute is ${L.labelsOf(tv || UNDEF)}`, W);
              st.setFact("typed");
              if (api === "startObservation" || api === "child") R.ob(tag + ":given", ks.get(E.OBSERVATION_STATUS_MESSAGE) === L.symStr("msg"), "attributes given at creation are not set", W);
            } else R.ob(tag + ":type-kept", tv === undefined || tv === UNDEF || tv === C(want), `an update changes the type to ${L.labelsOf(tv || UNDEF)}`, W);
            if (ks.has(E.OBSERVATION_STATUS_MESSAGE) && ks.get(E.OBSERVATION_STATUS_MESSAGE) === L.symStr("msg2")) st.setFact("updated");
          },
          onFn(info) {
            if (api === "startActiveObservation") checkObs(info.st, info.args[0], api);
            else n++;
          },
        });
        const I = X.I;
        const attrs = L.mkObj(I, X.st, "attrs", { statusMessage: L.symStr("msg") });
        const o = L.mkObj(I, X.st, "opts", { ...(t ? { asType: C(t) } : {}), ...(api !== "observe" && api !== "child" ? { startTime: START } : {}), ...(api === "observe" ? { name: L.symStr("nm") } : {}) });
        const upd = (st, v) => {
          const s = st.clone();
          updating = true;
          for (const u of L.invoke(I, s, v, "update", [L.mkObj(I, s, "upd", { statusMessage: L.symStr("msg2"), level: L.symStr("lvl"), version: L.symStr("ver"), model: L.symStr("mdl"), input: L.symStr("inp"), output: L.symStr("outp"), usageDetails: L.mkObj(I, s, "ud", { input: C(1) }), modelParameters: L.mkObj(I, s, "mp", { t: C(1) }), metadata: L.mkObj(I, s, "mdt", { a: C("b") }), prompt: L.mkObj(I, s, "prm", { name: C("p"), version: C(1), isFallback: FALSE }) })], "upd")) {
            R.ob(tag + ":update", u.k === "ret" && u.st.fact("updated"), "update() does not set the attributes on the span");
            R.ob(tag + ":chain", u.k !== "ret" || u.v === v, "update() does not return the observation");
          }
          updating = false;
          const s2 = st.clone();
          ending = true;
          const before = s2.fact("ended" + target) || 0;
          for (const u of L.invoke(I, s2, v, "end", [S("endTime")], "end")) R.ob(tag + ":ends", u.k === "ret" && u.st.fact("ended" + target) === before + 1, "end() does not end the observation's span");
          ending = false;
        };
        if (api === "startObservation") {
          for (const q of L.callFunction(I, X.st, L.findFunction(p, "tracing", api), [L.symStr("nm"), attrs, o], "so")) {
            if (!R.ob(tag + ":no-throw", q.k === "ret", "startObservation() throws")) continue;
            checkObs(q.st, q.v, api);
            upd(q.st, q.v);
          }
        } else if (api === "child") {
          for (const q of L.callFunction(I, X.st, L.findFunction(p, "tracing", "startObservation"), [L.symStr("parent")], "so"))
            for (const c of L.invoke(I, q.st, q.v, "startObservation", [L.symStr("nm"), attrs, o], "ch")) {
              if (!R.ob(tag + ":no-throw", c.k === "ret", "startObservation() throws")) continue;
              checkObs(c.st, c.v, "a parent's startObservation");
              upd(c.st, c.v);
            }
        } else if (api === "startActiveObservation") L.callFunction(I, X.st, L.findFunction(p, "tracing", api), [L.symStr("nm"), X.fn, o], "so");
        else
          for (const w of L.callFunction(I, X.st, L.findFunction(p, "tracing", "observe"), [X.fn, o], "obs")) {
            if (w.k !== "ret") continue;
            for (const q of I.call(w.st, w.v, UNDEF, [S("arg0", { ty: { kind: "string", nullable: false } })], null, L.root, "callw", null)) if (q.k === "ret") I.awaitVal(q.st, q.v, null, L.root);
          }
        R.entry(tag);
        R.ob(tag + ":reached", n > 0, "no observation is created");
      }
    // observe() without a name: the function's own name
    for (const opts of ["none", "empty", "typed"]) {
      const tag = "observe:unnamed:" + opts;
      const names = new Set();
      const X = mkTracing(p, R, {
        onStart(info) {
          names.add(L.labelsOf(info.args[0]));
        },
      });
      for (const o of X.I.getProp(X.st, X.fn, "name", null, L.root, { i: "nm" })) X.I.addRefine(X.st, single(o.v), { t: true });
      const args = opts === "none" ? [X.fn] : [X.fn, L.mkObj(X.I, X.st, "o", opts === "typed" ? { asType: C("tool") } : {})];
      for (const w of L.callFunction(X.I, X.st, L.findFunction(p, "tracing", "observe"), args, "obs")) if (w.k === "ret") for (const self of [UNDEF, L.symObj("self")]) X.I.call(w.st.clone(), w.v, self, [], null, L.root, "callw", null);
      R.entry(tag);
      R.ob(tag + ":name", names.size === 1 && [...names][0] === "fn.name", `a wrapped function's observation is named ${[...names].join(", ")}, expected the function's name`);
    }
    // updateActiveObservation
    for (const t of TYPES.filter((x) => x !== "event").concat([null, ""])) {
      const tag = "updateActive:" + (t === "" ? "empty-options" : t || "default");
      let n = 0;
      const X = mkTracing(p, R, {
        onCall(info) {
          if (info.name === "getActiveSpan") {
            const s2 = info.st.clone();
            s2.setFact("none");
            return [{ k: "ret", v: UNDEF, st: s2 }, { k: "ret", v: S("span1", { label: "span1", ty: { kind: "object", nullable: false } }), st: info.st }];
          }
          return null;
        },
        onAttrs(info) {
          const W = where(info.interp, info);
          const ks = keysOf(info.st, info.args[0]);
          if (!R.ob(tag + ":definite", ks, "the attributes are not definite", W)) return;
          const tv = ks.get(T);
          R.ob(tag + ":type", t ? tv === C(t) : tv === undefined || tv === UNDEF, `updating the active observation sets its type to ${L.labelsOf(tv || UNDEF)}`, W);
          R.ob(tag + ":attributes", ks.get(E.OBSERVATION_STATUS_MESSAGE) === L.symStr("msg"), "the attributes are not set on the active span", W);
          info.st.setFact("set");
        },
      });
      const args = [L.mkObj(X.I, X.st, "attrs", { statusMessage: L.symStr("msg") })];
      if (t !== null) args.push(L.mkObj(X.I, X.st, "o", t ? { asType: C(t) } : {}));
      for (const q of L.callFunction(X.I, X.st, L.findFunction(p, "tracing", "updateActiveObservation"), args, "ua")) {
        R.ob(tag + ":no-throw", q.k === "ret", "updateActiveObservation() throws");
        R.ob(tag + ":applied", q.st.fact("none") ? !q.st.fact("set") : q.st.fact("set"), q.st.fact("none") ? "an update without active span is applied" : "the active observation is not updated");
        n++;
      }
      R.entry(tag);
      R.ob(tag + ":reached", n >= 2, "not analysed");
    }
  },
};
