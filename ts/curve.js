// Stand-ins for elliptic and bn.js.  Scalars are polynomials modulo the group order over atoms (bit-vector values and
// inverses as negative powers); group elements are linear combinations of G and of "the point with abscissa x and
// parity"; a coordinate of such an element is an unknown integer, the same for equal elements.  The concrete variant
// (used to replay counterexamples) computes on secp256k1 with native bigints.
"use strict";
const S = require("./sym.js");
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n, P = 2n ** 256n - 2n ** 32n - 977n;
const md = (a, m) => ((a % m) + m) % m;
function powm(b, e, m) { let r = 1n; b = md(b, m); while (e) { if (e & 1n) r = r * b % m; b = b * b % m; e >>= 1n; } return r; }
const inv = (a, m) => powm(a, m - 2n, m);
let atoms = [], coords = [];
function reset() { atoms = []; coords = []; }
function atomOf(si) {
  for (let i = 0; i < atoms.length; i++) { const a = atoms[i]; if (!a.si) continue; const W = Math.max(a.si.w, si.w); if (a.si.t === si.t || S.z3([`(assert (not (= ${S.ext(a.si, W)} ${S.ext(si, W)})))`]) === "unsat") return i; }
  atoms.push({ si }); return atoms.length - 1;
}
// polynomials: Map "i^e,j^f" -> coefficient
const mkey = m => [...m.entries()].filter(x => x[1]).sort((a, b) => a[0] < b[0] ? -1 : 1).map(x => x.join("^")).join(",");
const mparse = k => new Map(k ? k.split(",").map(x => { const [a, e] = x.split("^"); return [a, +e]; }) : []);
const pconst = c => { const m = new Map(); c = md(c, N); if (c) m.set("", c); return m; };
const patom = i => new Map([[`${i}^1`, 1n]]);
function padd(a, b, k = 1n) { const r = new Map(a); for (const [m, c] of b) { const v = md((r.get(m) || 0n) + k * c, N); if (v) r.set(m, v); else r.delete(m); } return r; }
function pmul(a, b) { const r = new Map(); for (const [m, c] of a) for (const [n, d] of b) { const x = mparse(m); for (const [k, e] of mparse(n)) x.set(k, (x.get(k) || 0) + e); const key = mkey(x), v = md((r.get(key) || 0n) + c * d, N); if (v) r.set(key, v); else r.delete(key); } return r; }
const pkey = p => [...p.entries()].sort((a, b) => a[0] < b[0] ? -1 : 1).map(x => x.join("*")).join("+");
function pinv(p) {
  if (p.size === 1) { const [m, c] = [...p][0]; const x = new Map(); for (const [k, e] of mparse(m)) x.set(k, -e); return new Map([[mkey(x), inv(c, N)]]); }
  const d = "inv " + pkey(p);
  let i = atoms.findIndex(a => a.d === d); if (i < 0) { atoms.push({ d }); i = atoms.length - 1; }
  return patom(i);
}
function popaque(d) { let i = atoms.findIndex(a => a.d === d); if (i < 0) { atoms.push({ d }); i = atoms.length - 1; } return patom(i); }
function peq(a, b) {         // the two coefficients agree modulo the order for every value of every monomial?
  const ms = [...new Set([...a.keys(), ...b.keys()])].sort(); if (!ms.length) return true;
  const nm = new Map(); let i = 0; const dec = [];
  for (const m of ms) if (m !== "") { nm.set(m, "m" + i++); dec.push(`(declare-const m${i - 1} Int)(assert (and (<= 0 m${i - 1}) (< m${i - 1} ${N})))`); } else nm.set(m, "1");
  const sum = p => `(+ 0 0 ${[...p].map(([m, c]) => `(* ${c} ${nm.get(m)})`).join(" ")})`;
  return raw([...dec, "(declare-const k Int)(declare-const d Int)", `(assert (and (= (- ${sum(a)} ${sum(b)}) (+ (* ${N} k) d)) (< 0 d) (< d ${N})))`]) === "unsat";
}
const { spawnSync } = require("child_process");
function raw(lines) {
  const t0 = Date.now(), r = spawnSync("z3", ["-in", "-T:20"], { input: lines.join("\n") + "\n(check-sat)\n", encoding: "utf8" });
  S.st.queries++; S.st.ms += Date.now() - t0;
  return (r.stdout || "").trim().split("\n").pop();
}
// ---------------------------------------------------------------- bn.js
function guard(cls) { return cls; }
class BN {
  constructor(x, base, endian) {
    this.nonneg = true;
    if (x instanceof BN) { Object.assign(this, x); return; }
    if (base === "le" || base === "be") { endian = base; base = 10; }
    if (S.isBytes(x) || x instanceof Uint8Array || Array.isArray(x)) {
      let r = S.isBytes(x) ? x.raw() : S.bytesOf(x);
      if (endian === "le") r = r.slice().reverse();
      x = S.bigOf(r); if (base && base !== 10 && base !== 16 && base !== "hex") throw new S.Unsupported("BN base");
    } else if (x instanceof S.SymStr) { if (base !== 16 && base !== "hex") throw new S.Unsupported("BN of a symbolic string"); let cs = x.cs; x = S.nibVal(cs); }
    else if (x instanceof S.SymDec) { if (base && base !== 10) throw new S.Unsupported("BN base"); x = x.v; }
    else if (typeof x === "string") x = base === 16 || base === "hex" ? BigInt("0x" + (x || "0")) : BigInt(x || "0");
    else if (typeof x === "number") x = BigInt(x);
    else if (x === undefined || x === null) x = 0n;
    if (S.isI(x)) {
      if (base && base !== 10) throw new S.Unsupported("BN of an integer with a base");
      if (S.mayBe(`(bvslt ${x.t} ${S.lit(0n, x.w)})`)) { this.nonneg = false; }
      this.si = x;
    } else if (typeof x === "bigint") { this.c = x; this.nonneg = x >= 0n; }
    else throw new S.Unsupported("new BN");
  }
  get poly() { if (this._p) return this._p; this._p = this.c !== undefined ? pconst(this.c) : this.si ? patom(atomOf(this.si)) : popaque("bn"); return this._p; }
  static of(p, nonneg) { const r = new BN(0n); delete r.c; r._p = p; r.nonneg = nonneg; return r; }
  static isBN(x) { return x instanceof BN; }
  clone() { return new BN(this); }
  _op(b, fc, fp, nn) { if (!(b instanceof BN)) throw new TypeError("BN expected"); if (this.c !== undefined && b.c !== undefined) return new BN(fc(this.c, b.c)); return BN.of(fp(this.poly, b.poly), nn && this.nonneg && b.nonneg); }
  add(b) { return this._op(b, (x, y) => x + y, padd, true); }
  sub(b) { return this._op(b, (x, y) => x - y, (x, y) => padd(x, y, -1n), false); }
  mul(b) { return this._op(b, (x, y) => x * y, pmul, true); }
  neg() { if (this.c !== undefined) return new BN(-this.c); return BN.of(padd(new Map(), this.poly, -1n), false); }
  sqr() { return this.mul(this); }
  isNeg() { if (this.nonneg) return false; throw new S.Unsupported("sign of an abstract integer"); }
  _mod(m, u) {
    if (m.c === undefined) throw new S.Unsupported("abstract modulus");
    if (this.c !== undefined) return new BN(u ? md(this.c, m.c) : this.c % m.c);
    if (this.si && this.nonneg && !S.mayBe(`(not (bvslt ${S.ext(this.si, Math.max(this.si.w, 260))} ${S.lit(m.c, Math.max(this.si.w, 260))}))`)) return this;
    if (m.c === N) return BN.of(this.poly, u || this.nonneg);
    return BN.of(popaque(`${pkey(this.poly)} mod ${m.c}`), u || this.nonneg);
  }
  umod(m) { return this._mod(m, true); }
  mod(m) { return this._mod(m, false); }
  invm(m) { if (m.c !== N) throw new S.Unsupported("inverse modulo another number"); if (this.c !== undefined) return new BN(inv(this.c, N)); return BN.of(pinv(this.poly), true); }
  _invmp(m) { return this.invm(m); }
  _int() { if (this.c !== undefined) return this.c; if (this.si) return this.si; throw new S.Unsupported("value of an abstract scalar"); }
  toString(b) { const v = this._int(); if (b === 16 || b === "hex") return v.toString(16); if (b === undefined || b === 10) return v.toString(); throw new S.Unsupported("BN toString"); }
  toBuffer(endian = "be", len) { return this.toArrayLike(S.BufferS, endian, len); }
  toArrayLike(T, endian = "be", len) { if (!len) throw new S.Unsupported("toArrayLike without a length"); const h = S.op("+", this._int().toString(16), "").padStart(2 * len, "0"); const b = S.BufferS.from(h, "hex"); if (b.length !== len) throw new Error("byte array longer than desired length"); return endian === "le" ? b.reverse() : b; }
  toArray(endian, len) { return this.toArrayLike(S.BufferS, endian, len)._arr(); }
  fromRed() { return this; }
  isZero() { const v = this._int(); return S.truth(S.op("===", v, 0n)); }
  isOdd() { return S.truth(S.op("===", S.op("&", this._int(), 1n), 1n)); }
  isEven() { return !this.isOdd(); }
  _cmp(o, b) { return S.truth(S.op(o, this._int(), b._int())); }
  eq(b) { return this._cmp("===", b); } lt(b) { return this._cmp("<", b); } lte(b) { return this._cmp("<=", b); } gt(b) { return this._cmp(">", b); } gte(b) { return this._cmp(">=", b); }
  cmp(b) { return this.eq(b) ? 0 : this.lt(b) ? -1 : 1; }
  [Symbol.toPrimitive]() { if (this.c !== undefined) return this.c.toString(); throw new S.Unsupported("BN to primitive"); }
}
const UNS = o => new Proxy(o, { get(t, k) { if (k in t || typeof k === "symbol" || k === "then" || k === "toJSON") return Reflect.get(t, k, t); throw new S.Unsupported("elliptic: " + String(k)); } });
let opq = 0;
class Pt {
  constructor(terms) { this.terms = terms; }      // Map basis key -> poly
  static g() { return new Pt(new Map([["G", pconst(1n)]])); }
  mul(k) {
    if (!(k instanceof BN)) k = new BN(k, 16);
    const r = new Map();
    if (!k.nonneg && this.terms.size === 1 && this.terms.has("G") && pkey(this.terms.get("G")) === "*1") return new Pt(new Map([["opaque" + opq++, pconst(1n)]]));   // precomputed tables are only right for non-negative scalars
    for (const [b, p] of this.terms) { const v = pmul(p, k.poly); if (v.size) r.set(b, v); }
    return new Pt(r);
  }
  add(o) { const r = new Map(this.terms); for (const [b, p] of o.terms) { const v = padd(r.get(b) || new Map(), p); if (v.size) r.set(b, v); else r.delete(b); } return new Pt(r); }
  neg() { return new Pt(new Map([...this.terms].map(([b, p]) => [b, padd(new Map(), p, -1n)]))); }
  dbl() { return this.add(this); }
  mulAdd(k, q, l) { return this.mul(k).add(q.mul(l)); }
  same(o) { for (const b of new Set([...this.terms.keys(), ...o.terms.keys()])) if (!peq(this.terms.get(b) || new Map(), o.terms.get(b) || new Map())) return false; return true; }
  coord(which) {
    for (const c of coords) if (c.which === which && c.pt.same(this)) return c.si;
    const nm = `co${which}_${coords.length}`, v = S.sym(nm, 256);
    const W = v.w; S.st.pc.push(`(bvslt ${v.t} ${S.lit(P, W)})`);
    coords.push({ which, pt: this, si: v });
    return v;
  }
  getX() { return new BN(this.coord("x")); }
  getY() { return new BN(this.coord("y")); }
  get x() { return this.getX(); }
  get y() { return this.getY(); }
  encode(enc, compact) { return { enc: this, kind: enc || "array" }; }
  encodeCompressed(enc) { return { enc: this, kind: enc || "array" }; }
  getPublic() { return this; }
  validate() { return true; }
  eq(o) { if (this.same(o)) return true; throw new S.Unsupported("comparison of distinct elements"); }
  isInfinity() { return this.terms.size === 0; }
  normalize() { return this; }
}
const bases = [];
function pointFromX(x, odd) {
  if (!(x instanceof BN)) x = new BN(x, 16);
  const t = S.truthT(odd), o = t === undefined ? String(!!odd) : t;
  const v = x._int(), si = S.isI(v) ? v : S.lift(v);
  for (const b of bases) {
    const W = Math.max(b.si.w, si.w);
    if ((b.si.t === si.t || S.z3([`(assert (not (= ${S.ext(b.si, W)} ${S.ext(si, W)})))`]) === "unsat") && (b.o === o || S.z3([`(assert (not (= ${b.o} ${o})))`]) === "unsat")) return ofBase(b);
  }
  const b = { si, o, name: "R" + bases.length, on: null };
  for (const c of bases) { const W = Math.max(c.si.w, si.w); if (S.z3([`(assert (not (= ${S.ext(c.si, W)} ${S.ext(si, W)})))`]) === "unsat") b.on = c.on; }
  if (!b.on) b.on = S.symBool("oncurve" + bases.length);
  bases.push(b);
  return ofBase(b);
}
function ofBase(b) { if (!S.decide(b.on.t)) throw new Error("invalid point"); return new Pt(new Map([[b.name, pconst(1n)]])); }
class EC {
  constructor(name) {
    if (name !== "secp256k1") throw new S.Unsupported("curve " + name);
    this.n = new BN(N); this.g = Pt.g();
    this.curve = UNS({ g: this.g, n: this.n, p: new BN(P), pointFromX });
    return UNS(this);
  }
  keyFromPublic(x, enc) { if (x instanceof Pt) return { getPublic: () => x }; if (x && x.enc) { if (x.kind !== "array" && x.kind !== enc) throw new Error("bad encoding"); return UNS({ getPublic: () => x.enc }); } if (x && x.x !== undefined && x.y !== undefined) throw new S.Unsupported("key from coordinates"); throw new S.Unsupported("keyFromPublic"); }
}
exports.symbolic = { BN, EC, pointFromX, Pt };
exports.parities = () => bases.map(b => b.o);
exports.begin = () => { reset(); bases.length = 0; opq = 0; };
exports.N = N; exports.P = P; exports.inv = inv; exports.powm = powm; exports.md = md;
// ---------------------------------------------------------------- concrete
const G = [0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n];
function add(p, q) {
  if (!p) return q; if (!q) return p;
  let l;
  if (p[0] === q[0]) { if (md(p[1] + q[1], P) === 0n) return null; l = 3n * p[0] * p[0] * inv(2n * p[1], P); } else l = (q[1] - p[1]) * inv(md(q[0] - p[0], P), P);
  l = md(l, P);
  const x = md(l * l - p[0] - q[0], P);
  return [x, md(l * (p[0] - x) - p[1], P)];
}
function mul(k, p) { let r = null; k = md(k, N); while (k) { if (k & 1n) r = add(r, p); p = add(p, p); k >>= 1n; } return r; }
function fromX(x, odd) { x = md(x, P); const y2 = md(x * x * x + 7n, P); let y = powm(y2, (P + 1n) / 4n, P); if (md(y * y, P) !== y2) throw new Error("invalid point"); if (!!(y & 1n) !== !!odd) y = P - y; return [x, y]; }
Object.assign(exports, { G, add, mul, fromX });
class CBN {
  constructor(x, base, endian) {
    if (base === "le" || base === "be") { endian = base; base = 10; }
    if (x instanceof CBN) this.v = x.v;
    else if (x instanceof Uint8Array || Array.isArray(x)) { let r = [...x]; if (endian === "le") r.reverse(); this.v = BigInt("0x" + (Buffer.from(r).toString("hex") || "0")); }
    else if (typeof x === "string") this.v = base === 16 || base === "hex" ? BigInt("0x" + (x || "0")) : BigInt(x || "0");
    else this.v = BigInt(x || 0);
  }
  static isBN(x) { return x instanceof CBN; }
  clone() { return new CBN(this.v); }
  add(b) { return new CBN(this.v + b.v); } sub(b) { return new CBN(this.v - b.v); } mul(b) { return new CBN(this.v * b.v); } neg() { return new CBN(-this.v); } sqr() { return new CBN(this.v * this.v); }
  umod(m) { return new CBN(md(this.v, m.v)); } mod(m) { return new CBN(this.v % m.v); } invm(m) { return new CBN(inv(this.v, m.v)); } _invmp(m) { return this.invm(m); }
  isNeg() { return this.v < 0n; } isZero() { return this.v === 0n; } isOdd() { return !!(this.v & 1n); } isEven() { return !(this.v & 1n); } fromRed() { return this; }
  toString(b) { return b === 16 || b === "hex" ? this.v.toString(16) : this.v.toString(); }
  toBuffer(e, n) { return this.toArrayLike(Buffer, e, n); }
  toArrayLike(T, e = "be", n) { const h = this.v.toString(16), b = Buffer.from(n ? h.padStart(2 * n, "0") : h.padStart(h.length + h.length % 2, "0"), "hex"); return e === "le" ? b.reverse() : b; }
  toArray(e, n) { return [...this.toArrayLike(Buffer, e, n)]; }
  eq(b) { return this.v === b.v; } lt(b) { return this.v < b.v; } lte(b) { return this.v <= b.v; } gt(b) { return this.v > b.v; } gte(b) { return this.v >= b.v; } cmp(b) { return this.v < b.v ? -1 : this.v > b.v ? 1 : 0; }
  valueOf() { return this.v; }
}
class CPt {
  constructor(p, g) { this.p = p; this.isG = g; }
  mul(k) { const v = k instanceof CBN ? k.v : BigInt(k); if (this.isG && v < 0n) return new CPt(mul(md(-v, N) + 1n, G)); return new CPt(mul(v, this.p)); }
  add(o) { return new CPt(add(this.p, o.p)); } neg() { return new CPt(this.p && [this.p[0], md(-this.p[1], P)]); } dbl() { return this.add(this); } mulAdd(k, q, l) { return this.mul(k).add(q.mul(l)); }
  getX() { return new CBN(this.p[0]); } getY() { return new CBN(this.p[1]); } get x() { return this.getX(); } get y() { return this.getY(); }
  encode(e) { return { enc: this }; } encodeCompressed() { return { enc: this }; } getPublic() { return this; } eq(o) { return JSON.stringify(this.p, (k, v) => typeof v === "bigint" ? String(v) : v) === JSON.stringify(o.p, (k, v) => typeof v === "bigint" ? String(v) : v); } isInfinity() { return !this.p; } validate() { return true; } normalize() { return this; }
}
class CEC { constructor() { this.g = new CPt(G, true); this.n = new CBN(N); this.curve = { g: this.g, n: this.n, p: new CBN(P), pointFromX: (x, o) => new CPt(fromX(x instanceof CBN ? x.v : BigInt(x), o)) }; } keyFromPublic(x) { const p = x instanceof CPt ? x : x.enc; return { getPublic: () => p }; } }
exports.concrete = { BN: CBN, EC: CEC };
