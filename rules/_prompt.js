"use strict";
// abstract PromptManager with a controllable clock and a server whose n-th answer is a distinguishable prompt
const { L, V, where, prop } = require("./_common.js");
const { S, C, single, UNDEF } = V;
function mkPrompts(p, R, type = "text", extra = {}) {
  const cls = L.findClass(p, "client", "PromptManager");
  const X = { now: 0, calls: [], p };
  const I = R.use(
    L.mkInterp(p, {
      opts: { K: 16 },
      debugEnabled: false,
      onCall(info) {
        if (info.callee.k === "bi" && info.callee.name === "Date.now") return C(X.now);
        return null;
      },
      onSettle(i) {
        if (i.rec.nth) i.st.setFact("settled" + i.rec.nth, i.ok ? "ok" : "failed");
      },
      onApi(info, rec) {
        if (!info.ret || info.ret.kind !== "promise") return null;
        const st = info.st;
        const get = info.name === "get";
        const k = get ? "gets" : "writes";
        st.count(k, 20);
        const n = st.fact(k);
        X.calls.push({ name: info.name, args: info.args, n, st: st.clone(), W: where(I, info) });
        if (!get) {
          rec.nth = "w" + n;
          return null;
        }
        rec.nth = n;
        rec.token = "get" + n;
        const body = type === "chat" ? L.mkArr(I, st, `msgs${n}`, [L.mkObj(I, st, `msg${n}`, { type: C("chatmessage"), role: S("role" + n), content: L.symStr("content" + n) })]) : L.symStr("content" + n);
        rec.okVal = L.mkObj(I, st, `answer${n}`, { type: C(type), name: L.symStr("answer" + n + ".name"), version: C(1000 + n), prompt: body, config: S("cfg"), labels: S("labels"), tags: S("tags") });
        rec.mayReject = extra.mayReject !== undefined ? extra.mayReject : true;
        return [{ k: "ret", v: I.alloc(st, `get:${n}`, rec), st }];
      },
    }),
  );
  X.I = I;
  const st = new L.State();
  const outs = L.newInstance(I, st, cls, [L.mkObj(I, st, "params", { apiClient: L.symObj("api") })]).filter((o) => o.k === "ret");
  if (!outs.length) throw new L.AnchorError("PromptManager cannot be constructed");
  X.st = outs[0].st;
  X.m = outs[0].v;
  let q = 0;
  const version = (s, v) => {
    const w = prop(s, v, "version");
    return w && V.isConst(w) ? V.constOf(w) : undefined;
  };
  // await get(name, options): list of {k, v, st, version}
  X.get = (s, name, opts) => {
    const o = opts ? L.mkObj(I, s, "opts" + q, opts) : UNDEF;
    const id = "get" + q++;
    const res = [];
    for (const c of L.invoke(I, s, X.m, "get", [typeof name === "string" ? C(name) : name, o], id)) {
      if (c.k !== "ret") {
        res.push({ ...c, sync: true });
        continue;
      }
      const before = c.st.fact("gets") || 0;
      for (const r of I.awaitVal(c.st, c.v, null, L.root)) res.push({ ...r, before, version: r.k === "ret" ? version(r.st, r.v) : undefined, settledLast: r.st.fact("settled" + (r.st.fact("gets") || 0)) });
    }
    return res;
  };
  // the call without waiting for it: list of {k, v: promise, st}; X.settle awaits it
  X.start = (s, name, opts, m) => {
    const o = opts ? L.mkObj(I, s, "opts" + q, opts) : UNDEF;
    return L.invoke(I, s, m || X.m, "get", [C(name), o], "get" + q++);
  };
  X.settle = (s, v) => I.awaitVal(s, v, null, L.root).map((r) => ({ ...r, version: r.k === "ret" ? version(r.st, r.v) : undefined }));
  // another manager of the same process
  X.second = (s) => L.newInstance(I, s, cls, [L.mkObj(I, s, "params2", { apiClient: L.symObj("api2") })], "second").filter((o) => o.k === "ret");
  X.drain = (s) => I.drain(s, L.root);
  X.gets = (s) => s.fact("gets") || 0;
  return X;
}
module.exports = { mkPrompts };
