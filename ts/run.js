// usage: node run.js REPO '{"task":..., "arg":..., "model":{...}|null}'   prints one JSON line
"use strict";
const fs = require("fs"), path = require("path"), Module = require("module");
const X = require("./xform.js"), S = require("./sym.js"), C = require("./curve.js");
const LIB = path.join(process.argv[2], "packages/lib/src"), JOB = JSON.parse(process.argv[3].startsWith("@") ? fs.readFileSync(process.argv[3].slice(1), "utf8") : process.argv[3]);
const CONC = !!JOB.model;
let mods, hooks;
function resolve(from, name) {
  let b = name.startsWith("@src/") ? path.join(LIB, name.slice(5)) : name === "@src" ? LIB : path.resolve(path.dirname(from), name);
  for (const c of [b, b + ".ts", b + ".tsx", b + ".js", path.join(b, "index.ts"), path.join(b, "index.js")]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
  throw new S.Unsupported("module " + name);
}
const compiled = new Map();
function load(file) {
  if (mods.has(file)) return mods.get(file).exports;
  const m = { exports: {} };
  mods.set(file, m);
  if (!compiled.has(file)) {
    const js = X.compile(file, !CONC);
    const names = ["exports", "module", "require", "__rt", "console", "fetch", "__filename", "__dirname"].concat(CONC ? [] : ["BigInt", "Number", "String", "parseInt", "Uint8Array", "Buffer"]);
    compiled.set(file, new Function(...names, js));
  }
  const req = n => shim(file, n);
  const con = new Proxy({}, { get: () => () => undefined });
  const a = [m.exports, m, req, S.rt, con, hooks.fetch, file, path.dirname(file)];
  compiled.get(file)(...a.concat(CONC ? [] : [S.BigIntS, S.NumberS, S.StringS, S.parseIntS, S.Uint8ArrayS, S.BufferS]));
  return m.exports;
}
function shim(from, n) {
  const cv = CONC ? C.concrete : C.symbolic;
  if (n === "elliptic") return { ec: cv.EC };
  if (n === "bn.js") return cv.BN;
  if (n === "snarkjs") return { wtns: { calculate: async (i, f, o) => hooks.snark(i, f, o) } };
  if (n === "@ethereumjs/util") return { fromRpcSig: s => hooks.fromRpcSig(s) };
  if (n === "fs") return { readFileSync: p => hooks.readFile(p), promises: { readFile: async p => hooks.readFile(p) }, default: { readFileSync: p => hooks.readFile(p) } };
  if (n === "@zk-kit/incremental-merkle-tree") return { IncrementalMerkleTree: hooks.Tree };
  const f = resolve(from, n);
  if (path.dirname(f) === path.join(LIB, "wasm")) return { init: async () => { }, wasm: hooks.wasm };
  return load(f);
}
const at = p => load(path.join(LIB, p));
// ---------------------------------------------------------------- environment, symbolic or concrete
const E = {
  int(name, bits) { if (CONC) return BigInt.asUintN(bits, BigInt(JOB.model[name] || 0)); const v = S.sym(name, bits); if (JOB.only && JOB.only !== name) E.assume(S.op(">=", v, 1n << BigInt(bits - 4))); return v; },
  bytes(name, n, buf) { if (!CONC) return S.symBytes(name, n, buf); const r = []; for (let i = 0; i < n; i++) r.push(Number(JOB.model[`${name}_${i}`] || 0)); return buf ? Buffer.from(r) : new Uint8Array(r); },
  bool(name) { return CONC ? !!JOB.model[name] : S.truth(S.symBool(name)); },
  raw(b) { return CONC ? [...b] : S.bytesOf(b); },
  field(raw, name) { const v = E.be(raw); if (!CONC && JOB.only && JOB.only !== name && raw.length) E.assume(S.op(">=", v, 1n << BigInt(8 * raw.length - 4))); return v; },
  be(raw) { return CONC ? BigInt("0x" + (Buffer.from(raw).toString("hex") || "0")) : S.bigOf(raw); },
  u8(raw) { return CONC ? new Uint8Array(raw) : new S.Bytes(raw.slice(), 0, raw.length, false); },
  op(o, a, b) { return S.op(o, a, b); },
  assume(c) { if (CONC) { if (!c) throw new S.Dead(); } else if (c === true) return; else if (c === false) throw new S.Dead(); else { S.st.pc.push(c.t); } },
  isBytes: b => CONC ? b instanceof Uint8Array : S.isBytes(b),
};
const fails = [];
function fail(what, lines) {      // lines: assertions describing the violation (symbolic)
  if (CONC) { fails.push({ what }); return; }
  fails.push({ what, model: model(lines) });
}
const { spawnSync } = require("child_process");
function model(lines) {
  const names = S.st.decls.map(d => d.split(" ")[1]);
  const r = spawnSync("z3", ["-in", "-T:60"], { input: S.st.decls.join("\n") + "\n" + S.st.defs.join("\n") + "\n" + S.st.pc.map(p => `(assert ${p})`).join("\n") + "\n" + (lines || []).join("\n") + `\n(check-sat)\n(get-value (${names.join(" ")}))\n`, encoding: "utf8" });
  if (!r.stdout.startsWith("sat")) return null;
  const o = {};
  for (const m of r.stdout.matchAll(/\((\w+) (#x[0-9a-f]+|#b[01]+|true|false)\)/g)) o[m[1]] = m[2] === "true" ? 1 : m[2] === "false" ? 0 : (m[2][1] === "x" ? "0x" : "0b") + m[2].slice(2);
  for (const k in o) if (typeof o[k] === "string") o[k] = BigInt(o[k]).toString();
  return o;
}
let obligations = 0;
function must(what, c) {          // c: boolean | SymBool
  obligations++;
  if (typeof c === "boolean") { if (!c) fail(what, []); return; }
  const v = S.z3([`(assert (not ${c.t}))`]);
  if (v === "sat") fail(what, [`(assert (not ${c.t}))`]);
  else if (v !== "unsat") throw new S.Unsupported("solver gave no answer: " + what);
}
function eqInt(what, a, b) { if (typeof a !== "bigint" && !S.isI(a) || S.isI(a) && a.kind !== "bigint") { must(what + " (not a bigint)", false); return; } must(what, S.op("===", a, b)); }
function eqBytes(what, b, raw) {
  if (!E.isBytes(b)) { must(what + " (not bytes)", false); return; }
  const r = E.raw(b);
  must(`${what}: length ${r.length}, expected ${raw.length}`, r.length === raw.length);
  if (r.length !== raw.length) return;
  if (CONC) { must(what, r.every((x, i) => x === raw[i])); return; }
  must(what, new S.SymBool(`(and true ${r.map((x, i) => `(= ${S.byteT(x)} ${S.byteT(raw[i])})`).join(" ")})`));
}
function ints(v, n) { const r = []; for (let i = n - 1; i >= 0; i--) r.push(CONC ? Number((v >> BigInt(8 * i)) & 255n) : S.def("(_ BitVec 8)", `((_ extract ${8 * i + 7} ${8 * i}) ${S.ext(v, Math.max(v.w, 8 * n))})`)); return r; }
function toBoolTerm(x) { if (CONC) return !!x; const t = S.truthT(x); return t === undefined ? !!x : new S.SymBool(t); }
const bt = x => typeof x === "boolean" ? String(x) : x.t;
const and = (...l) => CONC ? l.every(x => x) : new S.SymBool(`(and true ${l.map(bt).join(" ")})`);
const iff = (a, b) => CONC ? a === b : new S.SymBool(`(= ${bt(a)} ${bt(b)})`);
const imp = (a, b) => CONC ? !a || b : new S.SymBool(`(=> ${bt(a)} ${bt(b)})`);
const FIELDS = ["merkleRoot", "Tx", "Ty", "Ux", "Uy"];
// specification of the derived group elements
function spec(r, v, m, odd) {
  if (odd === undefined) odd = E.op("===", E.op("&", E.op("+", v, 1n), 1n), 1n);            // parity of v - 27
  if (CONC) {
    const ri = C.inv(r, C.N), T = C.mul(ri, C.fromX(r, odd)), U = C.mul(C.md(-ri * E.be(m), C.N), C.G);
    return { Tx: T[0], Ty: T[1], Ux: U[0], Uy: U[1] };
  }
  const { BN, Pt, pointFromX } = C.symbolic, N = new BN(C.N), ri = new BN(r).invm(N);
  const T = pointFromX(new BN(r), odd).mul(ri), U = Pt.g().mul(ri.mul(new BN(E.be(m))).neg().umod(N));
  return { Tx: T.coord("x"), Ty: T.coord("y"), Ux: U.coord("x"), Uy: U.coord("y") };
}
// for recovery values other than 27 and 28 either point of the abscissa will do (the one the code took, where it took one)
function eitherSpec(r, v, m) {
  const os = CONC ? [] : C.parities();
  return (os.length ? os.map(o => o === "true" ? true : o === "false" ? false : new S.SymBool(o)) : [true, false]).map(o => spec(r, v, m, o));
}
const or = (...l) => CONC ? l.some(x => x) : new S.SymBool(`(or false ${l.map(bt).join(" ")})`);
function fresh(h = {}) {
  mods = new Map();
  C.begin();
  hooks = Object.assign({ wasm: {}, fetch: async () => { throw new Error("no network"); }, readFile: () => { throw new Error("no file"); }, snark: () => { throw new S.Unsupported("snark"); }, fromRpcSig: () => { throw new S.Unsupported("fromRpcSig"); }, Tree: class { } }, h);
}
function guardErr(e) { if (e instanceof S.Unsupported || e instanceof S.Dead) throw e; return e; }
const range = (r, lo, hi) => { E.assume(E.op(">=", r, lo)); E.assume(E.op("<", r, hi)); };
const T = {
  ser(L) {
    fresh();
    const { PublicInput, CircuitPubInput } = at("helpers/publicInputs.ts");
    const f = {}; for (const k of FIELDS) f[k] = E.int(k, 256);
    const r = E.int("r", 256), v = E.int("v", 8), m = E.bytes("m", L, true), mr = E.raw(m).slice();
    let c, p, cs, ps, q;
    try {
      c = new CircuitPubInput(...FIELDS.map(k => f[k]));
      cs = c.serialize();
      p = new PublicInput(r, v, m, c);
      ps = p.serialize();
    } catch (e) { must("serialization fails: " + guardErr(e).message, false); return; }
    const want = [].concat(...FIELDS.map(k => ints(f[k], 32)));
    eqBytes("circuit public input bytes", cs, want);
    eqBytes("public input bytes", ps, ints(r, 32).concat(ints(v, 1), want, mr));
    try { q = PublicInput.deserialize(ps); } catch (e) { must("reading back fails: " + guardErr(e).message, false); return; }
    fieldsOf(q, r, v, f, mr, "read back ");
    const b = E.u8(E.raw(cs).slice()); const q2 = CircuitPubInput.deserialize(b);
    for (const k of FIELDS) eqInt("read back circuit " + k, q2[k], f[k]);
  },
  deser(L) {
    fresh();
    const { PublicInput } = at("helpers/publicInputs.ts");
    const b = E.bytes("b", 193 + L, false), raw = E.raw(b).slice();
    const r = E.field(raw.slice(0, 32), "r"), v = E.field(raw.slice(32, 33), "v"), f = {}; FIELDS.forEach((k, i) => f[k] = E.field(raw.slice(33 + 32 * i, 65 + 32 * i), k));
    let q; try { q = PublicInput.deserialize(b); } catch (e) { must("deserialization fails: " + guardErr(e).message, false); return; }
    fieldsOf(q, r, v, f, raw.slice(193), "");
    let s; try { s = q.serialize(); } catch (e) { must("serialization fails: " + guardErr(e).message, false); return; }
    eqBytes("serialize after deserialize", s, raw);
  },
  utils(n) {
    fresh();
    const u = at("helpers/utils.ts"), x = E.int("x", 8 * n), b = E.bytes("b", n, false), raw = E.raw(b).slice();
    const go = (w, f) => { try { return f(); } catch (e) { must(w + " fails: " + guardErr(e).message, false); } };
    let r;
    if ((r = go("bigIntToBytes", () => u.bigIntToBytes(x, n))) !== undefined) eqBytes("bigIntToBytes", r, ints(x, n));
    if ((r = go("bigIntToLeBytes", () => u.bigIntToLeBytes(x, n))) !== undefined) eqBytes("bigIntToLeBytes", r, ints(x, n).reverse());
    if ((r = go("bytesToBigInt", () => u.bytesToBigInt(b))) !== undefined) eqInt("bytesToBigInt", r, E.be(raw));
    if ((r = go("bytesLeToBigInt", () => u.bytesLeToBigInt(E.u8(raw)))) !== undefined) eqInt("bytesLeToBigInt", r, E.be(raw.slice().reverse()));
  },
  compute([L, full]) {
    fresh();
    const { computeEffEcdsaPubInput } = at("helpers/publicInputs.ts");
    const r = E.int("r", 256), v = E.int("v", 8), m = E.bytes("m", L, true), raw = E.raw(m).slice();
    range(r, 1n, C.N); if (!full) range(v, 27n, 29n); nonzero(raw);
    let o, err; try { o = computeEffEcdsaPubInput(r, v, m); } catch (e) { err = guardErr(e); }
    let s, serr; try { s = full ? eitherSpec(r, v, raw) : spec(r, v, raw); } catch (e) { serr = guardErr(e); }
    if (full && !serr) {
      if (!err) must("derived points", or(...s.map(q => and(...["Tx", "Ty", "Ux", "Uy"].map(k => S.op("===", o[k], q[k]))))));
      return;
    }
    if (serr) { must("value returned for an abscissa off the curve", !o); return; }
    if (err) { must("fails on a valid input: " + err.message, false); return; }
    for (const k of ["Tx", "Ty", "Ux", "Uy"]) eqInt(k, o[k], s[k]);
  },
  check([L, full]) {
    fresh();
    const { PublicInput, CircuitPubInput, verifyEffEcdsaPubInput } = at("helpers/publicInputs.ts");
    const f = {}; for (const k of FIELDS) f[k] = E.int(k, 256);
    const r = E.int("r", 256), v = E.int("v", 8), m = E.bytes("m", L, true), raw = E.raw(m).slice();
    range(r, 1n, C.N); if (!full) range(v, 27n, 29n); nonzero(raw);
    let o, err; try { o = verifyEffEcdsaPubInput(new PublicInput(r, v, m, new CircuitPubInput(...FIELDS.map(k => f[k])))); } catch (e) { err = guardErr(e); }
    judge(o, err, true, r, v, raw, f, full);
  },
  async verify([L, full]) {
    const CIRC = [7, 1, 2, 3], PROOF = [9, 8, 7]; let called = [], wres = false;
    fresh({
      readFile: p => { if (p !== "circuit.bin") throw new Error("wrong path"); return CONC ? Buffer.from(CIRC) : S.BufferS.from(S.BufferS.from(Buffer.from(CIRC))); },
      wasm: { verify: (...a) => { called.push(a.map(x => E.isBytes(x) || x instanceof Uint8Array ? E.raw(x).slice() : x)); if (E.bool("wasm_throws")) throw new Error("wasm"); return wres = CONC ? !!JOB.model.wasm_ok : S.symBool("wasm_ok"); } }
    });
    const { MembershipVerifier } = at("core/verifier.ts");
    const b = E.bytes("b", 193 + L, false), raw = E.raw(b).slice();
    const r = E.field(raw.slice(0, 32), "r"), v = E.be(raw.slice(32, 33)), f = {}; FIELDS.forEach((k, i) => f[k] = E.field(raw.slice(33 + 32 * i, 65 + 32 * i), k));
    range(r, 1n, C.N); if (!full) range(v, 27n, 29n); nonzero(raw.slice(193));
    const ver = new MembershipVerifier({ circuit: "circuit.bin" });
    let o, err; try { o = await ver.verify({ proof: CONC ? new Uint8Array(PROOF) : S.BufferS.from(PROOF), publicInputSer: b }); } catch (e) { err = guardErr(e); }
    for (const a of called) {
      must("circuit handed to the proof system", JSON.stringify(a[0]) === JSON.stringify(CIRC));
      must("proof handed to the proof system", JSON.stringify(a[1]) === JSON.stringify(PROOF));
      must("public input handed to the proof system has 160 bytes", a[2].length === 160);
      if (a[2].length === 160) eqBytes("public input handed to the proof system", E.u8(a[2]), raw.slice(33, 193));
    }
    if (err) { judge(o, err, wres, r, v, raw.slice(193), f, full); return; }
    judge(toBoolTerm(o), undefined, toBoolTerm(wres), r, v, raw.slice(193), f, full, true);
  },
  async prove([L]) {
    const CIRC = [7, 1, 2, 3], W = [5, 5, 6]; const called = [], snark = [];
    const rb = E.bytes("rb", 32, true), sb = E.bytes("sb", 32, true), v = E.int("v", 8);
    fresh({
      readFile: p => { if (p !== "circuit.bin") throw new Error("wrong path"); return CONC ? Buffer.from(CIRC) : S.BufferS.from(CIRC); },
      fromRpcSig: s => { if (s !== "0xsig") throw new Error("wrong signature"); return { r: rb, s: sb, v }; },
      snark: (i, p, o) => { snark.push([Object.assign({}, i), p]); o.data = CONC ? new Uint8Array(W) : S.BufferS.from(W); },
      wasm: { prove: (...a) => { called.push(a.map(x => E.isBytes(x) || x instanceof Uint8Array ? E.raw(x).slice() : x)); return CONC ? new Uint8Array([1, 2]) : S.BufferS.from([1, 2]); } }
    });
    const { MembershipProver } = at("core/prover.ts");
    const m = E.bytes("m", L, true), raw = E.raw(m).slice(), r = E.field(E.raw(rb).slice(), "r"), s = E.field(E.raw(sb).slice(), "s"), root = E.int("root", 256), sib = [E.int("s0", 256)], sib2 = [E.int("s1", 256)], pi = [0, 1];
    range(r, 1n, C.N); range(v, 27n, 29n); nonzero(raw);
    const pr = new MembershipProver({ circuit: "circuit.bin", witnessGenWasm: "gen.wasm" });
    let o, err; try { o = await pr.prove({ sig: "0xsig", msgHash: m, merkleProof: { root, siblings: [sib, sib2], pathIndices: pi } }); } catch (e) { err = guardErr(e); }
    let sp, serr; try { sp = spec(r, v, raw); } catch (e) { serr = guardErr(e); }
    if (serr) { must("proof produced for an abscissa off the curve", !o); return; }
    if (err) { must("fails on a valid signature: " + err.message, false); return; }
    const f = Object.assign({ merkleRoot: root }, sp);
    fieldsOf(o.publicInput, r, v, f, raw, "public input ");
    must("one witness is generated with the configured program", snark.length === 1 && snark[0][1] === "gen.wasm");
    must("one proof is produced", called.length === 1); if (snark.length !== 1 || called.length !== 1) return;
    const w = snark[0][0]; if (!o || !o.proof) { must("no proof", false); return; }
    eqInt("witness input s", w.s, s); eqInt("witness input root", w.root, root);
    for (const k of ["Tx", "Ty", "Ux", "Uy"]) eqInt("witness input " + k, w[k], sp[k]);
    must("witness input siblings and path", Array.isArray(w.siblings) && w.siblings.length === 2 && w.siblings[0].length === 1 && w.pathIndices.length === 2 && w.pathIndices[0] === 0 && w.pathIndices[1] === 1);
    eqInt("witness input sibling 0", w.siblings[0][0], sib[0]); eqInt("witness input sibling 1", w.siblings[1][0], sib2[0]);
    const [cc, ww, pp] = called[0];
    must("circuit handed to the proof system", JSON.stringify(cc) === JSON.stringify(CIRC)); must("witness handed to the proof system", JSON.stringify(ww) === JSON.stringify(W));
    eqBytes("public input handed to the proof system", E.u8(pp), [].concat(...FIELDS.map(k => ints(f[k], 32))));
    must("the proof is the one produced", JSON.stringify(E.raw(o.proof)) === "[1,2]");
  },
  poseidon(n) {
    const out = E.bytes("h", 32, false), oraw = E.raw(out).slice(); const called = [];
    fresh({ wasm: { poseidon: b => { called.push(E.raw(b).slice()); return E.u8(oraw.slice()); } } });
    const { Poseidon } = at("helpers/poseidon.ts");
    const p = new Poseidon(), xs = []; for (let i = 0; i < n; i++) xs.push(E.int("x" + i, 256));
    let o; try { o = p.hash(xs); } catch (e) { must("hash fails: " + guardErr(e).message, false); return; }
    must("hash function called once", called.length === 1); if (called.length !== 1) return;
    eqBytes("hash input", E.u8(called[0]), [].concat(...xs.map(x => ints(x, 32).reverse())));
    eqInt("hash result", o, E.be(oraw.slice().reverse()));
    called.length = 0;
    const k = E.bytes("k", 64, true), kr = E.raw(k).slice();
    try { o = p.hashPubKey(k); } catch (e) { must("hashPubKey fails: " + guardErr(e).message, false); return; }
    must("hash function called once", called.length === 1); if (called.length !== 1) return;
    eqBytes("public key hash input", E.u8(called[0]), kr.slice(0, 32).reverse().concat(kr.slice(32, 64).reverse()));
    eqInt("public key hash result", o, E.be(oraw.slice().reverse()));
  },
  // @zk-kit/incremental-merkle-tree as documented, over a hash that is any function of its two inputs
  async tree([depth, ops]) {
    let nh = 0; const calls = [];
    const H = l => {
      if (!Array.isArray(l) || l.length !== 2) { must("the hash is given two numbers", false); throw new S.Dead(); }
      const [a, b] = l;
      if (CONC) return BigInt("0x" + require("crypto").createHash("sha256").update(a + "," + b).digest("hex"));
      const same = (x, y) => x === y || S.isI(x) && S.isI(y) && x.t === y.t;
      for (const c of calls) if (same(c[0], a) && same(c[1], b)) return c[2];
      const h = E.int("h" + nh++, 256);
      for (const c of calls) E.assume(imp(and(S.op("===", c[0], a), S.op("===", c[1], b)), S.op("===", c[2], h)));
      calls.push([a, b, h]); return h;
    };
    const eq = (a, b) => CONC ? a === b : S.truth(S.op("===", a, b));
    class Tree {
      constructor(hash, depth, zero, arity = 2, leaves = []) {
        if (typeof hash !== "function" || typeof depth !== "number" || arity !== 2 || depth < 1 || depth > 32) throw new TypeError("bad tree parameters");
        Object.assign(this, { hash, depth, arity, _leaves: leaves.slice(), zeroes: [zero] });
        for (let i = 1; i < depth; i++) this.zeroes.push(hash([this.zeroes[i - 1], this.zeroes[i - 1]]));
      }
      _nodes() {
        const r = [this._leaves];
        for (let l = 0; l < this.depth; l++) { const n = []; for (let i = 0; i < Math.max(1, r[l].length); i += 2) n.push(this.hash([0, 1].map(k => i + k < r[l].length ? r[l][i + k] : this.zeroes[l]))); r.push(n); }
        return r;
      }
      get root() { return this._nodes()[this.depth][0]; }
      get leaves() { return this._leaves.slice(); }
      get zeros() { return this.zeroes; }
      indexOf(x) { for (let i = 0; i < this._leaves.length; i++) if (eq(this._leaves[i], x)) return i; return -1; }
      insert(x) { if (this._leaves.length >= 2 ** this.depth) throw new Error("The tree is full"); this._leaves.push(x); }
      delete(i) { this.update(i, this.zeroes[0]); }
      update(i, x) { if (!(i >= 0 && i < this._leaves.length)) throw new Error("The leaf does not exist in this tree"); this._leaves[i] = x; }
      createProof(i) {
        if (!(i >= 0 && i < this._leaves.length)) throw new Error("The leaf does not exist in this tree");
        const n = this._nodes(), p = { root: this.root, leaf: this._leaves[i], leafIndex: i, siblings: [], pathIndices: [] };
        for (let l = 0; l < this.depth; l++) { p.pathIndices.push(i % 2); const j = i ^ 1; p.siblings.push([j < n[l].length ? n[l][j] : this.zeroes[l]]); i >>= 1; }
        return p;
      }
      verifyProof(p) { let n = p.leaf; for (let l = 0; l < p.siblings.length; l++) { const c = p.siblings[l].slice(); c.splice(p.pathIndices[l], 0, n); n = this.hash(c); } return S.op("===", p.root, n); }
    }
    fresh({ Tree });
    const { Tree: TT } = at("helpers/tree.ts");
    const pos = { hash(l) { return H(l); } };
    const L = [], x = [0, 1, 2, 3].map(i => E.int("x" + i, 256));
    let t, k = 0;
    try {
      t = new TT(depth, pos);
      for (const o of ops) if (o < 0) { t.insert(x[k]); L.push(x[k++]); } else { t.delete(o); L[o] = 0n; }
    } catch (e) { must("building the tree fails: " + guardErr(e).message, false); return; }
    const lvl = [L.slice()]; while (lvl[0].length < 2 ** depth) lvl[0].push(0n);
    for (let l = 0; l < depth; l++) { const n = []; for (let i = 0; i < lvl[l].length; i += 2) n.push(H([lvl[l][i], lvl[l][i + 1]])); lvl.push(n); }
    const root = lvl[depth][0], go = (w, f) => { try { return f(); } catch (e) { must(w + " fails: " + guardErr(e).message, false); throw new S.Dead(); } };
    must("depth", t.depth === depth);
    eqInt("root", go("root", () => t.root()), root);
    const lv = go("leaves", () => t.leaves());
    must("number of leaves", lv.length === L.length); lv.forEach((v, i) => eqInt("leaf " + i, v, L[i]));
    const y = E.int("y", 256);
    for (let i = 0; i < L.length; i++) {
      const p = go("createProof", () => t.createProof(i)), w = "proof of leaf " + i;
      eqInt(w + ": root", p.root, root);
      must(w + ": siblings and path", Array.isArray(p.siblings) && Array.isArray(p.pathIndices) && p.siblings.length === depth && p.pathIndices.length === depth);
      if (p.siblings.length !== depth || p.pathIndices.length !== depth) return;
      const flat = p.siblings.map(s => Array.isArray(s) ? s[0] : s);
      for (let l = 0; l < depth; l++) { must(`${w}: path index ${l}`, Number(p.pathIndices[l]) === (i >> l & 1)); eqInt(`${w}: sibling ${l}`, flat[l], lvl[l][(i >> l) ^ 1]); }
      const f = n => { for (let l = 0; l < depth; l++) n = (i >> l & 1) ? H([flat[l], n]) : H([n, flat[l]]); return n; };
      must(w + " verifies", toBoolTerm(go("verifyProof", () => t.verifyProof(p, L[i]))));
      must(w + " verifies for another leaf exactly when its hashes lead to the root", iff(toBoolTerm(go("verifyProof", () => t.verifyProof(p, y))), toBoolTerm(S.op("===", f(y), root))));
      const q = Object.assign({}, p, { root: y });
      must(w + " verifies against another root exactly when the hashes lead to it", iff(toBoolTerm(go("verifyProof", () => t.verifyProof(q, L[i]))), toBoolTerm(S.op("===", y, root))));
    }
    const i = go("indexOf", () => t.indexOf(y)), n = Number(i);
    must("indexOf", i === -1 || Number.isInteger(n) && n >= 0 && n < L.length);
    for (let j = 0; j < (n < 0 ? L.length : n); j++) must("indexOf finds the first such leaf", toBoolTerm(S.op("!==", L[j], y)));
    if (n >= 0 && n < L.length) must("indexOf finds such a leaf", toBoolTerm(S.op("===", L[n], y)));
  },
  sig() {
    const rb = E.bytes("rb", 32, true), sb = E.bytes("sb", 32, true), v = E.int("v", 8);
    const rr = E.raw(rb).slice(), sr = E.raw(sb).slice();
    fresh({ fromRpcSig: s => { if (s !== "0xsig") throw new Error("wrong signature"); return { r: rb, s: sb, v }; } });
    let o; try { o = at("helpers/utils.ts").fromSig("0xsig"); } catch (e) { must("fromSig fails: " + guardErr(e).message, false); return; }
    eqInt("r", o.r, E.be(rr)); eqInt("s", o.s, E.be(sr)); eqInt("v", o.v, v);
  },
};
function nonzero(raw) { if (CONC) { E.assume(C.md(E.be(raw), C.N) !== 0n); } }   // the message hash is not a multiple of the group order (T, U finite)
function fieldsOf(q, r, v, f, mraw, pre) {
  if (!q || !q.circuitPubInput) { must(pre + "no public input", false); return; }
  eqInt(pre + "r", q.r, r); eqInt(pre + "rV", q.rV, v); eqBytes(pre + "msgHash", q.msgHash, mraw);
  for (const k of FIELDS) eqInt(pre + k, q.circuitPubInput[k], f[k]);
}
function judge(o, err, proofOk, r, v, raw, f, full, loose) {
  if (err) {      // not accepted; must not happen when everything is right
    if (full) { obligations++; return; }
    let s; try { s = spec(r, v, raw); } catch (e) { guardErr(e); obligations++; return; }
    const ok = and(proofOk, ...["Tx", "Ty", "Ux", "Uy"].map(k => S.op("===", f[k], s[k])));
    must("right public input is not accepted: " + err.message, CONC ? !ok : new S.SymBool(`(not ${ok.t})`));
    return;
  }
  let s; try { s = full ? eitherSpec(r, v, raw) : [spec(r, v, raw)]; } catch (e) { guardErr(e); must("accepted with an abscissa off the curve", iff(toBoolTerm(o), false)); return; }
  const ok = and(proofOk, or(...s.map(q => and(...["Tx", "Ty", "Ux", "Uy"].map(k => S.op("===", f[k], q[k]))))));
  must(full ? "a wrong public input is accepted" : "accepted exactly when proof and public input are right", full ? imp(toBoolTerm(o), ok) : iff(toBoolTerm(o), ok));
}
// replays: the values of the model, then the same with an abscissa on the curve and some fields set to the right values
function candidates(m) {
  const l = [m];
  if (!["compute", "check", "verify", "prove"].includes(JOB.task)) return l;
  const t = JOB.task, pre = t === "verify" ? "b_" : t === "prove" ? "rb_" : null;
  const get = (n, k) => { let v = 0n; for (let i = 0; i < n; i++) v = v << 8n | BigInt(m[pre + (k + i)] || 0); return v; };
  const put = (o, k, v) => { for (let i = 0; i < 32; i++) o[pre + (k + i)] = String((v >> BigInt(8 * (31 - i))) & 255n); };
  const r0 = pre ? get(32, 0) : BigInt(m.r || 0);
  const v = t === "verify" ? get(1, 32) : BigInt(m.v || 27), mp = t === "verify" ? "b_" : "m_", mo = t === "verify" ? 193 : 0, L = JOB.arg[0];
  let mh = 0n; for (let i = 0; i < L; i++) mh = mh << 8n | BigInt(m[mp + (mo + i)] || 0);
  for (const r1 of [r0, 1n << 255n, 0x123456789n]) {
    let r = r1; for (let i = 0; i < 200; i++, r++) { try { C.fromX(r, true); if (r > 0n && r < C.N) break; } catch (e) { } }
    const a = Object.assign({}, m);
    if (pre) put(a, 0, r); else a.r = r.toString();
    let mhx = mh;
    if (C.md(mh, C.N) === 0n) { mhx = 5n; a[mp + (mo + L - 1)] = "5"; for (let i = 0; i < L - 1; i++) a[mp + (mo + i)] = "0"; }
    let s; try { const ri = C.inv(r, C.N), T = C.mul(ri, C.fromX(r, !((v & 1n)))), U = C.mul(C.md(-ri * mhx, C.N), C.G); s = [T[0], T[1], U[0], U[1]]; } catch (e) { continue; }
    for (let k = 15; k >= 0; k--) {
      const b = Object.assign({}, a);
      if (t === "check") FIELDS.slice(1).forEach((f, i) => { if (k >> i & 1) b[f] = s[i].toString(); else if (BigInt(b[f] || 0) === s[i]) b[f] = "1"; });
      else if (t === "verify") s.forEach((x, i) => { if (k >> i & 1) put(b, 65 + 32 * i, x); });
      else if (k < 15) break;
      l.push(b);
    }
  }
  return l;
}
(async () => {
  const out = { task: JOB.task, arg: JOB.arg };
  try {
    const fn = async () => { const k = fails.length; await T[JOB.task](JOB.arg); if (fails.length - k > 3) throw new S.Dead(); };
    if (CONC) { for (const m of candidates(JOB.model)) { JOB.model = m; try { await fn(); } catch (e) { if (e instanceof S.Dead) out.assumption = true; else throw e; } if (fails.length) break; } if (fails.length) out.model = JOB.model; }
    else { const rs = await S.explore(fn, 400, () => fails.length > 0); const bad = rs.find(r => r.error); out.paths = rs.length; if (bad) throw bad.error; }
    out.status = fails.length ? "fail" : "ok";
  } catch (e) { out.status = fails.length ? "fail" : e instanceof S.Unsupported ? "unsupported" : "error"; out.error = String(e && e.stack || e).slice(0, 600); }
  out.fails = fails.slice(0, 6); out.obligations = obligations; out.vars = CONC ? [] : S.st.decls.map(d => [d.split(' ')[1], d.includes('Bool') ? 1 : +/BitVec (\d+)/.exec(d)[1]]); out.files = mods ? [...mods.keys()].map(f => path.relative(process.argv[2], f)) : []; out.terms = S.st.n; out.queries = S.st.queries; out.ms = S.st.ms;
  console.log(JSON.stringify(out));
})();
