"use strict";
// The HTTP layer below the REST client, analysed with a model of fetch, timers and abort signals. A script gives the
// outcome of each attempt; timers fire when the script says so or when a pending wait is awaited.
const { L, V, prop, where } = require("./_common.js");
const { fetcherNode } = require("./_api.js");
const { S, C, UNDEF, single, isConst, constOf, mkVal } = V;
const OBJ = { kind: "object", nullable: false };
const NUM = { kind: "number", nullable: false };
const setProps = (st, v, props) => {
  const a = single(v), r = st.rec(a);
  const m = new Map(r.props);
  for (const k of Object.keys(props)) m.set(k, props[k]);
  st.setRec(a, { ...r, props: m });
};
// script(n) -> {status, headers, body} | {reject: value} | {timeout: true} | {abort: true}
function runFetcher(p, R, tag, { args, script, userSignal, userAborted, rand = 0.5, now, onFetch, timeoutMs, onAnyCall }) {
  const X = { timers: new Map(), lis: new Map(), sigs: 0 };
  let I;
  const fnode = fetcherNode(p);
  const abortErr = (st) => L.mkObj(I, st, "AbortError", { name: C("AbortError"), message: C("This operation was aborted"), stack: C("") }, { ext: "AbortError" });
  const mkSignal = (st, id) =>
    L.mkObj(I, st, "sig:" + id, {
      aborted: C(false),
      reason: UNDEF,
      addEventListener: S("sig.add:" + id, { label: "addEventListener", ty: { kind: "function", nullable: false } }),
      removeEventListener: S("sig.rem:" + id, { label: "removeEventListener", ty: { kind: "function", nullable: false } }),
      throwIfAborted: S("sig.throw:" + id, { label: "throwIfAborted", ty: { kind: "function", nullable: false } }),
    });
  const sigOf = (id) => mkVal([V.objAtom("sig:" + id)]);
  const isAborted = (st, sv) => prop(st, sv, "aborted") === C(true);
  // returns states
  const abort = (st, id, reason, frame) => {
    const sv = sigOf(id);
    if (isAborted(st, sv)) return [st];
    const rsn = !reason || (isConst(reason) && constOf(reason) === undefined) ? abortErr(st) : reason;
    setProps(st, sv, { aborted: C(true), reason: rsn });
    let sts = [st];
    for (const lid of (st.fact("lis:" + id) || "").split(",").filter(Boolean)) {
      const cb = X.lis.get(lid);
      sts = sts.flatMap((s) => (typeof cb === "function" ? cb(s) : I.call(s, cb, UNDEF, [S("event", { ty: OBJ })], null, frame || L.root, "lis" + lid, null).map((o) => o.st)));
    }
    return sts;
  };
  const listen = (st, id, cb) => {
    const lid = "l" + X.lis.size;
    X.lis.set(lid, cb);
    st.setFact("lis:" + id, (st.fact("lis:" + id) ? st.fact("lis:" + id) + "," : "") + lid);
  };
  const pend = (st, want) => [...X.timers.keys()].filter((t) => st.fact("timer:" + t) === "pending" && (!want || want(X.timers.get(t))));
  const isTimeout = (t) => t.delay === timeoutMs;
  const fire = (st, tid, frame) => {
    st.setFact("timer:" + tid, "fired");
    return I.call(st, X.timers.get(tid).cb, UNDEF, [], null, frame || L.root, "fire" + tid, null).map((o) => o.st);
  };
  const settled = (st, k, v, id) => [{ k: "ret", v: I.alloc(st, id, k === "ok" ? I.resolvedRec(v) : { ...I.promRec("rejected"), v }), st }];
  const signalId = (v) => {
    const a = v && single(v);
    return a && a.k === "obj" && /^sig:/.test(a.id) ? a.id.slice(4) : null;
  };
  I = X.I = R.use(
    L.mkInterp(p, {
      analyseApi: true,
      debugEnabled: false,
      opts: { K: 32, maxSteps: 8e5, stringifyThrows: false },
      onNew(info) {
        const nm = info.callee.name || info.label || (info.callee.k === "sym" && info.callee.label);
        if (nm === "AbortController") {
          const id = (info.st.fact("acs") || 0) + 1;
          info.st.setFact("acs", id);
          const s = mkSignal(info.st, id);
          return L.mkObj(I, info.st, "ac:" + id, { signal: s, abort: S("ac.abort:" + id, { label: "abort", ty: { kind: "function", nullable: false } }) });
        }
        return null;
      },
      onAwait(info) {
        const r = info.st.rec(info.atom);
        if (info.atom.k !== "obj" || !r || r.t !== "promise" || r.s !== "ext" || r.label !== "new Promise") return null;
        const ws = pend(info.st, (t) => !isTimeout(t));
        if (!ws.length) return null;
        let sts = [info.st];
        for (const w of ws) sts = sts.flatMap((s) => fire(s, w, info.frame));
        return sts.flatMap((s) => I.force(s, info.atom, info.frame, true));
      },
      onCall(info) {
        const { callee, args: a, st } = info;
        if (onAnyCall) onAnyCall(info);
        const id = callee.id || "";
        const nm = callee.k === "bi" ? callee.name : null;
        if (nm === "Math.random") return C(rand);
        if (nm === "Date.now" && now !== undefined) return C(now);
        if (nm === "Date.parse" && isConst(a[0])) return C(Date.parse(constOf(a[0])));
        if (info.name === "getTime" || info.name === "valueOf") {
          const d = info.thisV && single(info.thisV), r = d && st.rec(d);
          const x = r && r.ext === "Date" && r.ctorArgs;
          if (x && x.length && isConst(x[0])) return C(new Date(constOf(x[0])).getTime());
          if (x && !x.length && now !== undefined) return C(now);
        }
        if (nm === "setTimeout") {
          const tid = `${st.fact("n") || 0}.${X.timers.size}`;
          const h = S("timer:" + tid, { label: "timer", ty: OBJ });
          X.timers.set(tid, { cb: a[0], delay: a[1], h, after: st.fact("n") || 0 });
          st.setFact("timer:" + tid, "pending");
          return h;
        }
        if (nm === "clearTimeout") {
          const t = single(a[0] || UNDEF);
          if (t && /^timer:/.test(t.id || "") && st.fact(t.id) === "pending") st.setFact(t.id, "cleared");
          return UNDEF;
        }
        if (nm === "AbortSignal.any") {
          const nid = (st.fact("acs") || 0) + 1;
          st.setFact("acs", nid);
          const s = mkSignal(st, nid);
          const l = I.listOf(st, a[0], info.frame, { i: info.site });
          for (const e of l.elems || []) {
            const sid = signalId(e.v);
            if (!sid) continue;
            if (isAborted(st, e.v)) setProps(st, s, { aborted: C(true), reason: prop(st, e.v, "reason") });
            else listen(st, sid, (s2) => abort(s2, nid, prop(s2, sigOf(sid), "reason")));
          }
          return s;
        }
        if (/^ac\.abort:/.test(id)) return abort(st, id.slice(9), a[0], info.frame).map((s) => ({ k: "ret", v: UNDEF, st: s }));
        if (/^sig\.add:/.test(id)) {
          if (a[0] === C("abort") && a[1]) listen(st, id.slice(8), a[1]);
          return UNDEF;
        }
        if (/^sig\.rem:/.test(id)) return UNDEF;
        if (/^sig\.throw:/.test(id)) return isAborted(st, sigOf(id.slice(10))) ? [{ k: "throw", v: prop(st, sigOf(id.slice(10)), "reason"), st }] : UNDEF;
        if (nm === "fetch") {
          const n = (st.fact("n") || 0) + 1;
          st.setFact("n", n);
          const unwaited = pend(st, (t) => !isTimeout(t));
          const early = pend(st, (t) => isTimeout(t) && t.after < n - 1);
          R.ob(`${tag}:timer-per-attempt`, !early.length, "the timeout of an earlier attempt is still running when the next starts", where(I, info));
          const sid = signalId(prop(st, a[1], "signal"));
          if (onFetch) onFetch({ I, info, n, url: a[0], init: a[1], sid, unwaited, waits: [...X.timers.keys()].filter((t) => !isTimeout(X.timers.get(t)) && X.timers.get(t).after === n - 1 && st.fact("timer:" + t) === "fired").map((t) => X.timers.get(t).delay), st });
          const fid = `fetch:${n}:${info.frame.id}`;
          if (sid && isAborted(st, sigOf(sid))) {
            st.setFact("out", "aborted");
            return settled(st, "rej", prop(st, sigOf(sid), "reason"), fid);
          }
          const o = script(n);
          // what happens to the request happens while it is pending, after fetch() returned
          const later = (run) => [{ k: "ret", v: I.alloc(st, fid, I.promRec("ext", { token: fid, label: "fetch", run })), st }];
          if (o.timeout || o.abort)
            return later((st) => {
              let sts = [st];
              if (o.timeout) {
                const ts = pend(st, isTimeout);
                if (!R.ob(`${tag}:timeout-armed`, ts.length === 1, `${ts.length} timers with the request's timeout are running while the request is pending`, where(I, info))) return [{ k: "throw", v: abortErr(st), st }];
                for (const t of ts) sts = sts.flatMap((s) => fire(s, t, info.frame));
              } else sts = sts.flatMap((s) => abort(s, "user", o.reason ? o.reason(I, s) : UNDEF, info.frame));
              return sts.map((s) => {
                const ok = sid && isAborted(s, sigOf(sid));
                R.ob(`${tag}:${o.timeout ? "timeout" : "abort"}-reaches-request`, ok, `the request is not aborted when ${o.timeout ? "its timeout elapses" : "the caller aborts"}`, where(I, info));
                return { k: "throw", v: ok ? prop(s, sigOf(sid), "reason") : abortErr(s), st: s };
              });
            });
          if (o.reject) return later((st) => [{ k: "throw", v: o.reject(I, st), st }]);
          const hs = o.headers || {};
          const body = o.body === undefined ? "json" : o.body;
          X["h" + n] = hs;
          X["b" + n] = body;
          return later((st) => {
            const res = L.mkObj(I, st, "res:" + n, {
              status: C(o.status),
              ok: C(o.status >= 200 && o.status < 300),
              headers: L.mkObj(I, st, "hdrs:" + n, { get: S("hdr.get:" + n, { label: "headers.get", ty: { kind: "function", nullable: false } }), has: S("hdr.has:" + n, { label: "headers.has", ty: { kind: "function", nullable: false } }) }),
              body: body === null ? C(null) : S("stream", { label: "stream", ty: OBJ }),
              text: S("res.text:" + n, { label: "text", ty: { kind: "function", nullable: false } }),
              json: S("res.json:" + n, { label: "json", ty: { kind: "function", nullable: false } }),
              ...Object.fromEntries(Object.entries({ redirected: false, statusText: "", type: "basic", url: "u" }).map(([k, d]) => [k, C(o[k] === undefined ? d : o[k])])),
            });
            return [{ k: "ret", v: res, st }];
          });
        }
        let m;
        if ((m = /^hdr\.get:(\d+)$/.exec(id))) {
          const hs = X["h" + m[1]] || {};
          const k = isConst(a[0]) ? String(constOf(a[0])).toLowerCase() : "?";
          return C(hs[k] === undefined ? null : hs[k]);
        }
        if ((m = /^hdr\.has:(\d+)$/.exec(id))) return C(isConst(a[0]) && (X["h" + m[1]] || {})[String(constOf(a[0])).toLowerCase()] !== undefined);
        if ((m = /^res\.(text|json):(\d+)$/.exec(id))) {
          const b = X["b" + m[2]];
          const text = C(b === null || b === "" ? "" : b === "bad" ? "<html>" : b === "json" ? "{json}" : b);
          return settled(st, "ok", text, "txt:" + info.frame.id + ":" + info.site);
        }
        if (nm === "JSON.parse") {
          if (a[0] === C("<html>")) return [{ k: "throw", v: L.mkObj(I, st, "SyntaxError", { name: C("SyntaxError"), message: C("Unexpected token") }, { ext: "SyntaxError" }), st }];
          if (isConst(a[0])) return S("parsed", { label: "parsed body", ty: { kind: "any", nullable: true } });
        }
        return null;
      },
    }),
  );
  const st = new L.State();
  if (userSignal) {
    mkSignal(st, "user");
    if (userAborted) setProps(st, sigOf("user"), { aborted: C(true), reason: abortErr(st) });
  }
  const av = args(I, st, userSignal ? sigOf("user") : UNDEF);
  X.outs = [];
  for (const o of L.callFunction(I, st, fnode, [L.mkObj(I, st, "fargs", av)], "fetcher")) {
    if (o.k !== "ret") X.outs.push(o);
    else X.outs.push(...I.awaitVal(o.st, o.v, null, L.root));
  }
  X.pending = (s) => pend(s).map((t) => X.timers.get(t));
  return X;
}
module.exports = { runFetcher, setProps };
