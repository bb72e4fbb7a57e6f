"use strict";
const { L, V, where, prop } = require("./_common.js");
const { S, C, single, UNDEF } = V;
module.exports = {
  id: "P11",
  title: "scores keep the caller's data and attach to the right trace and observation",
  rule: "For every score input (fields present, absent or unknown): the queued event carries all caller fields unchanged, the caller's id/environment if given and otherwise a generated id / the configured environment; observation()/activeObservation() attach to the span's trace and span id, trace()/activeTrace() to the span's trace id only; without an active span nothing is queued and nothing throws",
  assumptions: ["scores are observed where they leave the process, in the ingestion request"],
  min: 20,
  run(p, R) {
    const cls = L.findClass(p, "client", "ScoreManager");
    const FIELDS = ["name", "value", "comment", "metadata", "dataType", "configId", "queueId"];
    const modes = ["create", "observation", "trace", "activeObservation", "activeTrace"];
    for (const mode of modes)
      for (const given of ["id+env", "none", "undefined", "unknown"])
        for (const active of mode.startsWith("active") ? [true, false] : [true]) {
          const tag = `${mode}:${given}${active ? "" : ":no-active-span"}`;
          let I, sent = 0, kept = false;
          const str = (n) => L.symStr(n);
          const hooks = {
            debugEnabled: false,
            opts: { stringifyThrows: false },
            env: { LANGFUSE_FLUSH_AT: UNDEF, LANGFUSE_FLUSH_INTERVAL: UNDEF },
            onCall(info) {
              if (info.name === "getActiveSpan") return active ? L.symObj("activeSpan") : UNDEF;
              if (info.name === "spanContext") return L.mkObj(I, info.st, "sc", { traceId: S(info.thisV.key + ".tid", { label: "traceId", ty: { kind: "string", nullable: false } }), spanId: S(info.thisV.key + ".sid", { label: "spanId", ty: { kind: "string", nullable: false } }) });
              return null;
            },
            onApi(info) {
              sent++;
              const W = where(I, info);
              const b = prop(info.st, info.args[0], "batch");
              const arr = b && single(b) && info.st.rec(single(b));
              const ev = arr && arr.elems && arr.elems.length === 1 ? arr.elems[0].v : null;
              if (!R.ob(tag + ":event", ev && single(ev), "not exactly one identifiable event is sent for one score", W)) return null;
              R.ob(tag + ":type", prop(info.st, ev, "type") === C("score-create"), "the event is not a score-create event", W);
              const body = prop(info.st, ev, "body");
              const evId = prop(info.st, ev, "id");
              if (!R.ob(tag + ":body", body && single(body), "the score body could not be identified", W)) return null;
              const g = (k) => prop(info.st, body, k) || UNDEF;
              for (const f of FIELDS) R.ob(`${tag}:${f}`, g(f) === S("in." + f), `field ${f} of the score is changed to ${L.labelsOf(g(f))}`, W);
              const id = g("id"), env = g("environment");
              const isGen = (v) => v.atoms.every((a) => a.k === "sym" && !/^in\./.test(a.id));
              if (given === "id+env") {
                R.ob(tag + ":id", id === str("in.id"), "the caller's score id is not used", W);
                R.ob(tag + ":env", env === str("in.environment"), "the caller's environment is not used", W);
              } else if (given === "none" || given === "undefined") {
                R.ob(tag + ":id", isGen(id) && id !== UNDEF, `no id is generated (${L.labelsOf(id)})`, W);
                R.ob(tag + ":env", env.atoms.length === 1 && /^env\.LANGFUSE_TRACING_ENVIRONMENT$/.test(env.atoms[0].id || ""), "the configured environment is not used", W);
              } else {
                R.ob(tag + ":id", id.atoms.every((a) => a.k === "sym" && (a.id === "in.id?" || isGen(V.mkVal([a])))), "the caller's score id is lost", W);
                if (id.atoms.some((a) => a.id === "in.id?")) kept = true;
              }
              R.ob(tag + ":event-id", evId && evId !== id && evId !== UNDEF && evId.atoms.every((a) => !id.atoms.includes(a)), "the event id is not an own generated id", W);
              if (mode !== "create") {
                const base = mode.startsWith("active") ? L.symObj("activeSpan").key : L.symObj("otelSpan").key;
                R.ob(tag + ":traceId", g("traceId").atoms.length === 1 && g("traceId").atoms[0].id === base + ".tid", `the score is attached to trace ${L.labelsOf(g("traceId"))}`, W);
                const o = g("observationId");
                if (/observation/i.test(mode)) R.ob(tag + ":observationId", o.atoms.length === 1 && o.atoms[0].id === base + ".sid", `the score is attached to observation ${L.labelsOf(o)}`, W);
                else R.ob(tag + ":observationId", o === S("in.observationId") || o === UNDEF, "a trace score is attached to an observation", W);
              } else for (const f of ["traceId", "observationId", "sessionId", "datasetRunId"]) R.ob(`${tag}:${f}`, g(f) === S("in." + f), `field ${f} is changed`, W);
              return null;
            },
          };
          I = R.use(L.mkInterp(p, hooks));
          const st = new L.State();
          for (const c of L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { apiClient: L.symObj("api") })])) {
            if (c.k !== "ret") continue;
            const data = {};
            for (const f of FIELDS) data[f] = S("in." + f);
            if (mode === "create") for (const f of ["traceId", "observationId", "sessionId", "datasetRunId"]) data[f] = S("in." + f);
            if (given === "id+env") (data.id = str("in.id")), (data.environment = str("in.environment"));
            if (given === "undefined") (data.id = UNDEF), (data.environment = UNDEF);
            if (given === "unknown") data.id = S("in.id?", { ty: { kind: "string", nullable: true } });
            const d = L.mkObj(I, c.st, "data", data);
            const args = mode === "observation" || mode === "trace" ? [L.mkObj(I, c.st, "obs", { otelSpan: L.symObj("otelSpan") }), d] : [d];
            for (const o of L.invoke(I, c.st, c.v, mode, args, mode)) {
              if (!R.ob(tag + ":no-throw", o.k === "ret", `${mode}() throws`)) continue;
              for (const q of L.invoke(I, o.st, c.v, "flush", [], "flush")) I.drain(q.st, L.root);
            }
          }
          R.entry(tag);
          if (given === "unknown" && active) R.ob(tag + ":id-kept", kept, "the caller's score id is lost on every path");
          if (active) R.ob(tag + ":sent", sent > 0, "the score is never sent");
          else R.ob(tag + ":not-sent", sent === 0, "a score is sent although there is no active span");
        }
    // ---- two managers: a score is sent by the manager it was created on, once
    {
      const tag = "two clients";
      const got = [];
      let I;
      I = R.use(
        L.mkInterp(p, {
          debugEnabled: false,
          opts: { stringifyThrows: false },
          env: { LANGFUSE_FLUSH_AT: UNDEF, LANGFUSE_FLUSH_INTERVAL: UNDEF },
          onApi(info) {
            const b = prop(info.st, info.args[0], "batch");
            const arr = b && single(b) && info.st.rec(single(b));
            const api = /api2/.test(L.labelsOf(info.thisV || UNDEF) + (info.thisV ? info.thisV.key : "")) ? "B" : "A";
            for (const e of (arr && arr.elems) || []) got.push([api, prop(info.st, prop(info.st, e.v, "body") || UNDEF, "name"), where(I, info)]);
            return null;
          },
        }),
      );
      const st = new L.State();
      for (const a of L.newInstance(I, st, cls, [L.mkObj(I, st, "pA", { apiClient: L.symObj("api") })], "A"))
        for (const b of a.k === "ret" ? L.newInstance(I, a.st, cls, [L.mkObj(I, a.st, "pB", { apiClient: L.symObj("api2") })], "B") : []) {
          if (b.k !== "ret") continue;
          let sts = [b.st];
          const step = (m, meth, args, site) => (sts = sts.flatMap((s) => L.invoke(I, s, m, meth, args(s), site).flatMap((o) => I.drain(o.st, L.root) || [o.st])));
          const score = (n) => (s) => [L.mkObj(I, s, "d" + n, { name: S("score" + n), value: C(1), traceId: C("t") })];
          step(a.v, "create", score("A"), "ca");
          step(b.v, "flush", () => [], "fb0");
          R.ob(tag + ":not-by-other", got.length === 0, "flushing one client sends the score of another", got[0] && got[0][2]);
          step(b.v, "create", score("B"), "cb");
          step(a.v, "flush", () => [], "fa");
          step(b.v, "flush", () => [], "fb");
          for (const [x, w] of [["A", "A"], ["B", "B"]]) {
            const of = got.filter((g) => g[1] === S("score" + x));
            R.ob(`${tag}:${x}`, of.length > 0 && of.every((g) => g[0] === w), `the score of client ${x} is sent ${of.length ? "by client " + of.map((g) => g[0]).join(", ") : "by none"}`, of[0] && of[0][2]);
          }
        }
      R.entry(tag);
      R.ob(tag + ":reached", got.length > 0, "no score is sent");
    }
  },
};
