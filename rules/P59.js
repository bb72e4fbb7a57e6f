"use strict";
const { L, V, prop, where, konst, readConst } = require("./_common.js");
const { S, C, UNDEF, NULL, single, isConst, constOf, BI } = V;
const OBJ = { kind: "object", nullable: false }, STR = { kind: "string", nullable: false };
const BIG = 300000, MANY = 60000; // content larger than a call can take arguments
module.exports = {
  id: "P59",
  title: "Base64 conversion keeps every byte, on every platform",
  rule: "The conversion functions of both packages' helpers are evaluated on known content (empty, every byte value, every remainder of three, text inside and outside ASCII and the BMP), on a platform with and without Buffer: the encoders give the standard Base64 of exactly the content, the decoders its inverse. On content of unknown bytes and large size no call gets one argument per byte",
  assumptions: ["Buffer, TextEncoder, TextDecoder, atob and btoa are the platform's", "the known contents stand for all: the functions treat bytes alike"],
  min: 40,
  run(p, R) {
    const u8 = (I, st, id, bytes) => {
      const v = L.mkArr(I, st, id, [...bytes].map((b) => C(b)));
      const a = single(v);
      st.setRec(a, { ...st.rec(a), bytes: true });
      return v;
    };
    const bytesOf = (st, v) => {
      const x = readConst(st, v);
      return Array.isArray(x) && x.every((b) => typeof b === "number") ? Buffer.from(x) : null;
    };
    let seq = 0;
    const mk = (hasBuffer) => {
      let I;
      const known = (info, v) => (isConst(v) && typeof constOf(v) === "string" ? constOf(v) : null);
      const buf = (st, b) => {
        const v = u8(I, st, "buf" + seq++, b);
        return v;
      };
      I = R.use(
        L.mkInterp(p, {
          analyseApi: true,
          debugEnabled: false,
          opts: { K: 16, maxElems: 600, maxSteps: 3e6, globals: { Buffer: hasBuffer } },
          onGetProp(info) {
            if (info.base.k === "sym" && info.base.size !== undefined && /^(length|byteLength)$/.test(info.name)) return C(info.base.size);
            return null;
          },
          onNew(info) {
            const n = info.name || info.label || (info.callee && info.callee.name) || "";
            if (/^Text(En|De)coder$/.test(n)) return S(n, { label: n, ty: OBJ });
            if (/Uint8Array$/.test(n)) {
              const a = info.args[0];
              if (a && isConst(a) && typeof constOf(a) === "number") return constOf(a) <= 600 ? u8(I, info.st, "u8:" + seq++, Buffer.alloc(constOf(a))) : S("bytes" + constOf(a), { label: "bytes", ty: OBJ, size: constOf(a) });
              return a || UNDEF;
            }
            return null;
          },
          onCall(info) {
            const { st, callee, args } = info;
            const nm = callee.k === "bi" ? callee.name : "";
            const t = info.thisV && single(info.thisV);
            const src = args.spreadOf && single(args.spreadOf);
            if (src && src.size !== undefined) R.ob("large:arguments", src.size <= MANY, `${src.size} bytes are passed as arguments of one call, which fails for large content`, where(I, info));
            if (nm === "Function#apply" && args[1] && single(args[1]) && single(args[1]).size !== undefined) R.ob("large:arguments", single(args[1]).size <= MANY, `${single(args[1]).size} bytes are passed as arguments of one call, which fails for large content`, where(I, info));
            if (t && t.k === "sym" && t.size !== undefined && /^(subarray|slice)$/.test(info.name)) {
              if (args.open || !args.every(isConst)) return S(`${t.id}[${args.map((x) => x.key)}]`, { label: "bytes", ty: OBJ });
              const b = args[0] && isConst(args[0]) ? constOf(args[0]) : 0, e = args[1] ? (isConst(args[1]) ? Math.min(constOf(args[1]), t.size) : t.size) : t.size;
              return S(`${t.id}[${b}:${e}]`, { label: "bytes", ty: OBJ, size: Math.max(0, e - b) });
            }
            if (/^String\.from(CharCode|CodePoint)$/.test(nm) && !args.open && args.every(isConst)) return C(String[nm.slice(7)](...args.map(constOf)));
            if (nm === "Uint8Array.from" || nm === "Uint8Array.of") return I.call(st, BI(nm.replace("Uint8Array", "Array")), UNDEF, args, info.ast, info.frame, info.site + "f", null);
            if (/^(globalThis\.)?(atob|btoa)$/.test(nm) && known(info, args[0]) !== null) {
              try {
                return C(globalThis[nm.replace("globalThis.", "")](constOf(args[0])));
              } catch (e) {
                return [{ k: "throw", v: L.mkObj(I, st, "InvalidCharacterError", { message: C("invalid character") }, { ext: "Error" }), st }];
              }
            }
            if (t && t.label === "TextEncoder" && info.name === "encode" && known(info, args[0]) !== null) return u8(I, st, "enc" + seq++, Buffer.from(constOf(args[0]), "utf8"));
            if (t && t.label === "TextDecoder" && info.name === "decode") {
              const b = args[0] && bytesOf(st, args[0]);
              return b ? C(new TextDecoder().decode(b)) : null;
            }
            if (nm === "Buffer.from" || (info.name === "from" && /Buffer(\.from)?$/.test(info.label || callee.label || ""))) {
              const enc = args[1] && isConst(args[1]) ? constOf(args[1]) : undefined;
              if (known(info, args[0]) !== null) return buf(st, Buffer.from(constOf(args[0]), enc));
              const b = args[0] && bytesOf(st, args[0]);
              if (b) return buf(st, b);
              return args[0] && single(args[0]) && single(args[0]).size !== undefined ? args[0] : null;
            }
            if (info.name === "toString" && t && t.k === "obj" && (st.rec(t) || {}).bytes) {
              const b = bytesOf(st, info.thisV);
              if (b) return C(b.toString(args[0] && isConst(args[0]) ? constOf(args[0]) : "utf8"));
            }
            if (info.name === "toString" && t && t.size !== undefined) return S("text(" + t.id + ")", { label: "text", ty: STR });
            return null;
          },
        }),
      );
      return I;
    };
    const nodes = [];
    for (const name of ["base64Encode", "base64Decode", "bytesToBase64", "base64ToBytes"]) nodes.push([name, L.findFunction(p, "core", name)]);
    // the copies used by the generated API client
    for (const sf of p.program.getSourceFiles())
      if (/packages\/core\/src\/api\/core\//.test(sf.fileName)) sf.forEachChild((n) => L.ts.isFunctionDeclaration(n) && n.body && n.name && /^base64(En|De)code$/.test(n.name.text) && nodes.push([n.name.text, n]));
    R.ob("functions", ["base64Encode", "base64Decode", "bytesToBase64", "base64ToBytes"].every((n) => nodes.some(([m]) => m === n)), "a conversion function is missing");
    const all = Buffer.from(Array.from({ length: 256 }, (_, i) => i));
    const BYTES = { empty: Buffer.alloc(0), one: Buffer.from([0]), two: Buffer.from([255, 254]), three: Buffer.from([127, 128, 129]), four: Buffer.from([251, 255, 190, 0]), ...Object.fromEntries(Array.from({ length: 16 }, (_, i) => [`bytes ${16 * i} to ${16 * i + 15}`, all.subarray(16 * i, 16 * i + 16)])), zeros: Buffer.alloc(5) };
    const TEXTS = { empty: "", ascii: "pk-lf-1234:sk-lf-5678", padded: "a", padded2: "ab", special: "~?>~?>\n\t ", latin: "clé:größe", bmp: "键✓", astral: "a😀b" };
    for (const [name, node] of nodes) {
      const file = node.getSourceFile().fileName.replace(/.*packages\//, "");
      for (const hasBuffer of [true, false]) {
        const cases = /Bytes|bytes/.test(name) ? BYTES : TEXTS;
        for (const [cn, x] of Object.entries(cases)) {
          const tag = `${name}@${/api/.test(file) ? "api" : "utils"}:${hasBuffer ? "Buffer" : "no Buffer"}:${cn}`;
          const I = mk(hasBuffer);
          const st = new L.State();
          const b64 = Buffer.from(x).toString("base64");
          const arg = name === "bytesToBase64" ? u8(I, st, "in", x) : C(name === "base64Encode" ? x : b64);
          const want = name === "bytesToBase64" || name === "base64Encode" ? b64 : name === "base64Decode" ? x : JSON.stringify([...x]);
          let n = 0;
          for (const o of L.callFunction(I, st, node, [arg], "conv")) {
            n++;
            const got = o.k === "ret" ? readConst(o.st, o.v) : undefined;
            const txt = Array.isArray(got) ? JSON.stringify(got) : got;
            R.ob(tag, o.k === "ret" && txt === want, o.k === "ret" ? `${name} of ${cn} gives ${JSON.stringify(txt)} instead of ${JSON.stringify(want)}` : `${name} of ${cn} throws`, { loc: p.loc(node) });
          }
          R.ob(tag + ":reached", n > 0, "no result");
          R.entry(tag);
        }
        if (name === "bytesToBase64") {
          const I = mk(hasBuffer);
          const st = new L.State();
          R.tentative(() => {
            try {
              L.callFunction(I, st, node, [S("big", { label: "bytes", ty: OBJ, size: BIG })], "big");
            } catch (e) {
              return true;
            }
            return true;
          });
          R.entry(`${name}: large content`);
        }
      }
    }
  },
};
