// Symbolic runtime: integers (bigint or number) as signed bit vectors wide enough never to overflow, byte arrays, hex
// strings and booleans over them; branches on symbolic conditions are explored by re-execution, z3 prunes dead paths.
"use strict";
const { spawnSync } = require("child_process");
class Unsupported extends Error { }
class Dead extends Error { }
const st = { defs: [], decls: [], n: 0, pc: [], trail: [], pos: 0, todo: [], memo: new Map(), cons: new Map(), queries: 0, ms: 0, cache: new Map(), unk: 0 };
function z3(lines) {
  const key = st.pc.join("\n") + "\n\n" + lines.join("\n");
  if (st.cache.has(key)) return st.cache.get(key);
  const t0 = Date.now();
  const r = spawnSync("z3", ["-in", "-T:20"], { input: st.decls.join("\n") + "\n" + st.defs.join("\n") + "\n" + st.pc.map(p => `(assert ${p})`).join("\n") + "\n" + lines.join("\n") + "\n(check-sat)\n", encoding: "utf8" });
  st.queries++; st.ms += Date.now() - t0;
  const v = (r.stdout || "").trim().split("\n").pop();
  const out = v === "sat" || v === "unsat" ? v : "unknown";
  if (out === "unknown") { st.unk++; if (/error/.test(r.stdout)) throw new Unsupported("solver: " + r.stdout.slice(0, 200)); }
  st.cache.set(key, out);
  return out;
}
function def(sort, t) {
  const k = sort + t;
  if (st.memo.has(k)) return st.memo.get(k);
  const nm = "t" + st.n++;
  st.defs.push(`(define-fun ${nm} () ${sort} ${t})`);
  st.memo.set(k, nm);
  return nm;
}
const bvs = w => `(_ BitVec ${w})`;
const lit = (v, w) => `(_ bv${BigInt.asUintN(w, v)} ${w})`;
class SymBool { constructor(t) { this.t = t; } valueOf() { throw new Unsupported("SymBool to primitive"); } toString() { throw new Unsupported("SymBool to string"); } [Symbol.toPrimitive]() { throw new Unsupported("SymBool to primitive"); } }
const isB = x => x instanceof SymBool;
function width(v) { let w = 1; while (BigInt.asIntN(w, v) !== v) w++; return w; }
class SymInt {
  constructor(w, t, kind) { this.w = w; this.t = t; this.kind = kind; }
  toString(base) {
    if (base === 16) return hexOf(this);
    if (base === undefined || base === 10) return new SymDec(this);
    throw new Unsupported("toString base " + base);
  }
  get [Symbol.toStringTag]() { return "SymInt"; }
  [Symbol.toPrimitive]() { throw new Unsupported("symbolic integer to primitive"); }
  valueOf() { throw new Unsupported("symbolic integer to primitive"); }
}
class SymDec { constructor(v) { this.v = v; } toString() { return this; } [Symbol.toPrimitive]() { throw new Unsupported("decimal string"); } }
const isI = x => x instanceof SymInt;
const isInt = x => isI(x) || typeof x === "bigint" || (typeof x === "number" && Number.isInteger(x));
const kindOf = x => isI(x) ? x.kind : typeof x;
function lift(x) { if (isI(x)) return x; const v = BigInt(x), w = width(v); return new SymInt(w, lit(v, w), typeof x); }
function ext(x, w) { return x.w === w ? x.t : def(bvs(w), `((_ sign_extend ${w - x.w}) ${x.t})`); }
function mk(w, t, kind) { return new SymInt(w, def(bvs(w), t), kind); }
function mayBe(cond) { return z3([`(assert ${cond})`]) !== "unsat"; }
function decide(t) {
  if (t === "true") return true;
  if (t === "false") return false;
  let v;
  if (st.pos < st.trail.length) v = st.trail[st.pos++];
  else {
    const a = mayBe(t), b = mayBe(`(not ${t})`);
    if (!a && !b) throw new Dead();
    if (a && b) { st.todo.push(st.trail.concat([false])); v = true; st.trail.push(true); st.pos++; }
    else { v = a; st.trail.push(v); st.pos++; }
  }
  st.pc.push(v ? t : `(not ${t})`);
  return v;
}
const truthT = x => isB(x) ? x.t : isI(x) ? `(not (= ${x.t} ${lit(0n, x.w)}))` : undefined;
function truth(x) {
  const t = truthT(x);
  if (t !== undefined) return decide(t);
  if (x instanceof SymStr) return x.length > 0;
  if (x instanceof SymDec) return true;
  return !!x;
}
function wrap32(r) { return r; }
function op(o, a, b) {
  if (a instanceof SymStr || b instanceof SymStr || a instanceof SymDec || b instanceof SymDec) return sop(o, a, b);
  if (isB(a) || isB(b)) return bop(o, a, b);
  if (!isI(a) && !isI(b)) return nat(o, a, b);
  const eqs = { "==": 1, "===": 1, "!=": 1, "!==": 1 };
  if (!isInt(a) || !isInt(b)) {
    if (eqs[o]) { if (o.length === 3 || a == null || b == null) return o[0] === "!"; }
    throw new Unsupported(`${o} on ${typeof a}, ${typeof b}`);
  }
  const ka = kindOf(a), kb = kindOf(b);
  if (ka !== kb) {
    if (o === "===") return false;
    if (o === "!==") return true;
    if (!["==", "!=", "<", "<=", ">", ">="].includes(o)) throw new TypeError("Cannot mix BigInt and other types, use explicit conversions");
  }
  const x = lift(a), y = lift(b), k = ka, W = Math.max(x.w, y.w);
  const cmp = { "<": "bvslt", "<=": "bvsle", ">": "bvsgt", ">=": "bvsge" };
  if (eqs[o]) { const e = def("Bool", `(= ${ext(x, W)} ${ext(y, W)})`); return new SymBool(o[0] === "!" ? `(not ${e})` : e); }
  if (cmp[o]) return new SymBool(def("Bool", `(${cmp[o]} ${ext(x, W)} ${ext(y, W)})`));
  let r;
  switch (o) {
    case "+": r = mk(W + 1, `(bvadd ${ext(x, W + 1)} ${ext(y, W + 1)})`, k); break;
    case "-": r = mk(W + 1, `(bvsub ${ext(x, W + 1)} ${ext(y, W + 1)})`, k); break;
    case "*": r = mk(x.w + y.w, `(bvmul ${ext(x, x.w + y.w)} ${ext(y, x.w + y.w)})`, k); break;
    case "/": case "%":
      if (k === "number" && o === "/") throw new Unsupported("number division");
      if (decide(def("Bool", `(= ${y.t} ${lit(0n, y.w)})`))) { if (k === "bigint") throw new RangeError("Division by zero"); throw new Unsupported("modulo zero"); }
      r = mk(W + 1, `(${o === "/" ? "bvsdiv" : "bvsrem"} ${ext(x, W + 1)} ${ext(y, W + 1)})`, k); break;
    case "&": case "|": case "^":
      if (k === "number") { need32(x); need32(y); }
      r = mk(W, `(${{ "&": "bvand", "|": "bvor", "^": "bvxor" }[o]} ${ext(x, W)} ${ext(y, W)})`, k); break;
    case "<<": case ">>": case ">>>": {
      if (isI(b)) throw new Unsupported("symbolic shift amount");
      const s = Number(b);
      if (k === "number") { need32(x); }
      if (o === "<<") { r = mk(x.w + s, `(concat ${x.t} ${lit(0n, s || 1)})`, k); if (!s) r = x; if (k === "number") need32(r); }
      else { if (o === ">>>") nonneg(x); const sh = Math.min(s, x.w - 1); r = mk(x.w - sh, `((_ extract ${x.w - 1} ${sh}) ${x.t})`, k); }
      break;
    }
    default: throw new Unsupported("operator " + o);
  }
  if (k === "number" && r.w > 53) throw new Unsupported("number beyond 53 bits");
  return r;
}
function need32(x) { if (x.w > 32) { const t = `(= ${x.t} ((_ sign_extend ${x.w - 32}) ((_ extract 31 0) ${x.t})))`; if (mayBe(`(not ${t})`)) throw new Unsupported("32-bit operation on a wide number"); } }
function nonneg(x) { if (mayBe(`(bvslt ${x.t} ${lit(0n, x.w)})`)) throw new Unsupported("unsigned shift of a negative number"); }
function nat(o, a, b) {
  switch (o) {
    case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
    case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b;
    case "<": return a < b; case "<=": return a <= b; case ">": return a > b; case ">=": return a >= b;
    case "==": return a == b; case "===": return a === b; case "!=": return a != b; case "!==": return a !== b;
  }
}
function bop(o, a, b) {
  if (o === "===" || o === "==" || o === "!==" || o === "!=") {
    if (typeof a !== "boolean" && !isB(a) || typeof b !== "boolean" && !isB(b)) { if (o.length === 3) return o[0] === "!"; throw new Unsupported("loose boolean comparison"); }
    const e = def("Bool", `(= ${isB(a) ? a.t : a} ${isB(b) ? b.t : b})`);
    return new SymBool(o[0] === "!" ? `(not ${e})` : e);
  }
  // arithmetic on booleans: decide them
  return op(o, isB(a) ? Number(truth(a)) : a, isB(b) ? Number(truth(b)) : b);
}
// ---------------------------------------------------------------- strings
class SymStr {
  constructor(cs) { this.cs = cs; }          // each a one-character string or {nib: 4-bit term} (lower-case hex digit)
  get length() { return this.cs.length; }
  slice(a, b) { return norm(this.cs.slice(a, b)); }
  substring(a, b) { a = a || 0; b = b === undefined ? this.length : b; a = Math.max(0, Math.min(a, this.length)); b = Math.max(0, Math.min(b, this.length)); return norm(this.cs.slice(Math.min(a, b), Math.max(a, b))); }
  substr(a, n) { if (a < 0) a = Math.max(0, this.length + a); return norm(this.cs.slice(a, n === undefined ? undefined : a + n)); }
  padStart(n, c = " ") { const k = Math.max(0, n - this.length); if (!c.length) return this; return norm([...c.repeat(k)].slice(0, k).concat(this.cs)); }
  padEnd(n, c = " ") { const k = Math.max(0, n - this.length); return norm(this.cs.concat([...c.repeat(k)].slice(0, k))); }
  charAt(i) { return i < this.length ? norm([this.cs[i]]) : ""; }
  concat(...a) { return a.reduce((x, y) => op("+", x, y), this); }
  toString() { return this; }
  toLowerCase() { return norm(this.cs.map(c => typeof c === "string" ? c.toLowerCase() : c)); }
  startsWith(s) { return truth(op("===", this.slice(0, s.length), s)); }
  split(sep) { if (sep === "") return this.cs.map(c => norm([c])); throw new Unsupported("split"); }
  replace(a, b) { if (a === "0x" && b === "" && this.cs[0] === "0" && this.cs[1] === "x") return norm(this.cs.slice(2)); if ((a === "0x" || String(a) === "/^0x/") && !this.cs.includes("x")) return this; throw new Unsupported("replace"); }
  match(re) { if (/^\/\.\{1,2\}\/g$|^\/\.\.\/g$|^\/\.\{2\}\/g$|^\/\[\\da-f\]\{2\}\/gi?$|^\/\\w\{2\}\/g$/.test(String(re))) { const r = []; for (let i = 0; i < this.length; i += 2) if (i + 2 <= this.length || /1,2/.test(String(re))) r.push(this.slice(i, i + 2)); return r.length ? r : null; } throw new Unsupported("match"); }
  [Symbol.iterator]() { return this.split("")[Symbol.iterator](); }
  [Symbol.toPrimitive]() { throw new Unsupported("symbolic string to primitive"); }
}
function norm(cs) { return cs.every(c => typeof c === "string") ? cs.join("") : new SymStr(cs); }
function sop(o, a, b) {
  if (o === "+") {
    if (a instanceof SymDec || b instanceof SymDec) { if (a === "") return b; if (b === "") return a; throw new Unsupported("decimal string concatenation"); }
    const l = x => x instanceof SymStr ? x.cs : [...String(x)];
    return norm(l(a).concat(l(b)));
  }
  if (["===", "==", "!==", "!="].includes(o)) {
    const neg = o[0] === "!";
    if (a instanceof SymDec && b instanceof SymDec) return op(o, a.v, b.v);
    if (a instanceof SymDec || b instanceof SymDec) throw new Unsupported("decimal string comparison");
    const l = x => x instanceof SymStr ? x.cs : typeof x === "string" ? [...x] : null;
    const x = l(a), y = l(b);
    if (!x || !y || x.length !== y.length) return neg;
    const p = [];
    for (let i = 0; i < x.length; i++) {
      if (typeof x[i] === "string" && typeof y[i] === "string") { if (x[i] !== y[i]) return neg; continue; }
      const g = c => typeof c === "string" ? (/^[0-9a-f]$/.test(c) ? `#x${c}` : null) : c.nib;
      const u = g(x[i]), v = g(y[i]);
      if (!u || !v) return neg;
      p.push(`(= ${u} ${v})`);
    }
    const t = `(and true ${p.join(" ")})`;
    return new SymBool(def("Bool", neg ? `(not ${t})` : t));
  }
  throw new Unsupported("string " + o);
}
class SymHexMin extends SymStr {               // toString(16) of a non-negative value, length not yet decided
  constructor(v) { super(null); this.v = v; this._cs = null; }
  get cs() { if (!this._cs) this._cs = this.resolve(); return this._cs; }
  set cs(x) { this._cs = x; }
  nibs(n) { const x = this.v, W = Math.max(x.w, 4 * n); const t = ext(x, W); const r = []; for (let i = n - 1; i >= 0; i--) r.push({ nib: def("(_ BitVec 4)", `((_ extract ${4 * i + 3} ${4 * i}) ${t})`) }); return r; }
  below(n) { const x = this.v; return 4 * n >= x.w - 1 ? "true" : def("Bool", `(bvslt ${x.t} ${lit(1n << BigInt(4 * n), x.w)})`); }
  resolve() { const mx = Math.ceil((this.v.w - 1) / 4) || 1; let lo = 1, hi = mx; while (lo < hi) { const n = (lo + hi) >> 1; if (decide(this.below(n))) hi = n; else lo = n + 1; } return this.nibs(lo); }
  padStart(n, c) { if (this._cs || c !== "0") return norm(this.cs).padStart(n, c); if (n > 0 && decide(this.below(n))) return norm(this.nibs(n)); return this; }
}
function hexOf(x) {
  if (x.kind === "bigint" || x.kind === "number") {
    if (decide(def("Bool", `(bvslt ${x.t} ${lit(0n, x.w)})`))) return op("+", "-", hexOf(op("-", x.kind === "bigint" ? 0n : 0, x)));
    return new SymHexMin(x);
  }
}
function nibVal(cs) {      // -> SymInt of the hex digits
  if (!cs.length) return 0n;
  const t = cs.map(c => typeof c === "string" ? `#x${c.toLowerCase()}` : c.nib);
  return mk(4 * cs.length + 1, `(concat #b0 ${t.join(" ")})`, "bigint");
}
const isHex = c => typeof c !== "string" || /^[0-9a-fA-F]$/.test(c);
function toBig(x) {
  if (isI(x)) return new SymInt(x.w, x.t, "bigint");
  if (isB(x)) return BigInt(truth(x));
  if (x instanceof SymDec) return new SymInt(x.v.w, x.v.t, "bigint");
  if (x instanceof SymStr) {
    const cs = x.cs;
    if (cs[0] === "0" && (cs[1] === "x" || cs[1] === "X")) {
      const d = cs.slice(2);
      if (!d.length || !d.every(isHex)) throw new SyntaxError("Cannot convert string to a BigInt");
      return nibVal(d);
    }
    if (!cs.every(c => typeof c !== "string" || /^[0-9]$/.test(c))) throw new SyntaxError("Cannot convert string to a BigInt");
    let v = 0n;
    for (const c of cs) {
      if (typeof c === "string") { v = op("+", op("*", v, 10n), BigInt(c)); continue; }
      if (!decide(def("Bool", `(bvule ${c.nib} #x9)`))) throw new SyntaxError("Cannot convert string to a BigInt");
      v = op("+", op("*", v, 10n), mk(5, `(concat #b0 ${c.nib})`, "bigint"));
    }
    return v;
  }
  return BigInt(x);
}
const BigIntS = Object.assign(function (x) { return toBig(x); }, {
  asUintN(n, x) { if (!isI(x)) return BigInt.asUintN(n, x); if (n >= x.w) { const e = ext(x, n); return mk(n + 1, `(concat #b0 ${e})`, "bigint"); } return mk(n + 1, `(concat #b0 ((_ extract ${n - 1} 0) ${x.t}))`, "bigint"); },
  asIntN(n, x) { if (!isI(x)) return BigInt.asIntN(n, x); throw new Unsupported("asIntN"); }
});
const NumberS = new Proxy(function (x) {
  if (isI(x)) { if (x.w > 53) { const t = `(= ${x.t} ((_ sign_extend ${x.w - 53}) ((_ extract 52 0) ${x.t})))`; if (mayBe(`(not ${t})`)) throw new Unsupported("Number of a wide integer"); return mk(53, `((_ extract 52 0) ${x.t})`, "number"); } return new SymInt(x.w, x.t, "number"); }
  if (isB(x)) return Number(truth(x));
  if (x instanceof SymStr) return NumberS(toBig(x));
  return Number(x);
}, { get: (t, k) => Number[k] });
function parseIntS(s, b) {
  if (s instanceof SymStr) { let cs = s.cs; if (cs[0] === "0" && cs[1] === "x") { cs = cs.slice(2); b = b || 16; } if (b !== 16 || !cs.length || !cs.every(isHex) || cs.length > 13) throw new Unsupported("parseInt"); const v = nibVal(cs); return new SymInt(v.w, v.t, "number"); }
  if (isI(s) || s instanceof SymDec) throw new Unsupported("parseInt");
  return parseInt(s, b);
}
// ---------------------------------------------------------------- byte arrays
function byte(x) {               // -> number or 8-bit term
  if (typeof x === "number") return x & 255;
  if (isB(x)) return Number(truth(x));
  if (isI(x)) { if (x.kind === "bigint") throw new TypeError("Cannot convert a BigInt value to a number"); return x.w >= 8 ? def("(_ BitVec 8)", `((_ extract 7 0) ${x.t})`) : def("(_ BitVec 8)", ext(x, 8)); }
  if (x === undefined) return 0;
  if (typeof x === "bigint") throw new TypeError("Cannot convert a BigInt value to a number");
  throw new Unsupported("byte from " + typeof x);
}
const byteNum = t => typeof t === "number" ? t : mk(9, `(concat #b0 ${t})`, "number");
const byteT = t => typeof t === "number" ? lit(BigInt(t), 8) : t;
const handler = {
  get(o, k, r) { if (typeof k === "string" && /^(0|[1-9]\d*)$/.test(k)) { const i = +k; return i < o.len ? byteNum(o.st[o.off + i]) : undefined; } return Reflect.get(o, k, o); },
  set(o, k, v) { if (typeof k === "string" && /^(0|[1-9]\d*)$/.test(k)) { const i = +k, b = byte(v); if (i < o.len) o.st[o.off + i] = b; return true; } o[k] = v; return true; },
  has(o, k) { return typeof k === "string" && /^\d+$/.test(k) ? +k < o.len : k in o; }
};
class Bytes {
  constructor(store, off, len, buf) { this.st = store; this.off = off; this.len = len; this.isBuf = buf; const p = new Proxy(this, handler); this.self = p; return p; }
  raw() { return this.st.slice(this.off, this.off + this.len); }
  get length() { return this.len; }
  get byteLength() { return this.len; }
  get byteOffset() { return this.off; }
  get buffer() { return this; }
  get [Symbol.toStringTag]() { return "Uint8Array"; }
  _rng(a, b) { const L = this.len, f = (x, d) => { x = x === undefined ? d : Math.trunc(Number(x)) || 0; return x < 0 ? Math.max(0, L + x) : Math.min(x, L); }; const s = f(a, 0), e = f(b, L); return [s, Math.max(s, e)]; }
  subarray(a, b) { const [s, e] = this._rng(a, b); return new Bytes(this.st, this.off + s, e - s, this.isBuf); }
  slice(a, b) { if (this.isBuf) return this.subarray(a, b); const [s, e] = this._rng(a, b); return new Bytes(this.st.slice(this.off + s, this.off + e), 0, e - s, false); }
  set(src, o = 0) { const v = bytesOf(src); if (o < 0 || o + v.length > this.len) throw new RangeError("offset is out of bounds"); for (let i = 0; i < v.length; i++) this.st[this.off + o + i] = v[i]; }
  copy(dst, to = 0, a = 0, b = this.len) { const v = this.raw().slice(a, b); let n = 0; for (; n < v.length && to + n < dst.len; n++) dst.st[dst.off + to + n] = v[n]; return n; }
  fill(x, a, b) { if (typeof x === "string") throw new Unsupported("fill"); const [s, e] = this._rng(a, b); for (let i = s; i < e; i++) this.st[this.off + i] = byte(x); return this.self; }
  reverse() { const v = this.raw().reverse(); for (let i = 0; i < v.length; i++) this.st[this.off + i] = v[i]; return this.self; }
  toReversed() { return new Bytes(this.raw().reverse(), 0, this.len, false); }
  at(i) { return i < 0 ? this.self[this.len + i] : this.self[i]; }
  _arr() { return this.raw().map(byteNum); }
  map(f) { const r = this._arr().map((x, i) => f(x, i, this.self)).map(byte); return new Bytes(r, 0, r.length, this.isBuf); }
  forEach(f) { this._arr().forEach((x, i) => f(x, i, this.self)); }
  reduce(f, ...i) { return this._arr().reduce(f, ...i); }
  reduceRight(f, ...i) { return this._arr().reduceRight(f, ...i); }
  every(f) { return this._arr().every(x => truth(f(x))); }
  some(f) { return this._arr().some(x => truth(f(x))); }
  join(s) { throw new Unsupported("join"); }
  keys() { return this._arr().keys(); }
  values() { return this._arr().values(); }
  entries() { return this._arr().entries(); }
  [Symbol.iterator]() { return this._arr()[Symbol.iterator](); }
  toString(enc) {
    if (!this.isBuf) throw new Unsupported("Uint8Array toString");
    if (enc !== "hex") throw new Unsupported("Buffer toString " + enc);
    const r = [];
    for (const b of this.raw()) { if (typeof b === "number") { r.push(...b.toString(16).padStart(2, "0")); } else r.push({ nib: def("(_ BitVec 4)", `((_ extract 7 4) ${b})`) }, { nib: def("(_ BitVec 4)", `((_ extract 3 0) ${b})`) }); }
    return norm(r);
  }
  equals(o) { return eqBytes(this, o); }
  compare() { throw new Unsupported("compare"); }
  readUInt8(i = 0) { if (i >= this.len) throw new RangeError("out of range"); return this.self[i]; }
  writeUInt8(v, i = 0) { if (i >= this.len) throw new RangeError("out of range"); this.self[i] = v; return i + 1; }
  readUInt32BE(i = 0) { if (i + 4 > this.len) throw new RangeError("out of range"); const v = bigOf(this.raw().slice(i, i + 4)); return isI(v) ? new SymInt(v.w, v.t, "number") : Number(v); }
  readBigUInt64BE(i = 0) { if (i + 8 > this.len) throw new RangeError("out of range"); return bigOf(this.raw().slice(i, i + 8)); }
  writeBigUInt64BE(v, i = 0) { if (i + 8 > this.len) throw new RangeError("out of range"); for (let j = 0; j < 8; j++) this.self[i + j] = NumberS(BigIntS.asUintN(8, op(">>", v, BigInt(56 - 8 * j)))); return i + 8; }
}
function bigOf(raw) { if (!raw.length) return 0n; return raw.every(b => typeof b === "number") ? BigInt("0x" + Buffer.from(raw).toString("hex")) : mk(8 * raw.length + 1, `(concat #b0 ${raw.map(byteT).join(" ")})`, "bigint"); }
const isBytes = x => x instanceof Bytes;
function eqBytes(a, b) {
  const x = a.raw(), y = bytesOf(b);
  if (x.length !== y.length) return false;
  return new SymBool(def("Bool", `(and true ${x.map((v, i) => `(= ${byteT(v)} ${byteT(y[i])})`).join(" ")})`));
}
function bytesOf(x) { if (isBytes(x)) return x.raw(); if (x instanceof Uint8Array) return [...x]; if (Array.isArray(x)) return x.map(byte); if (x && typeof x[Symbol.iterator] === "function" && typeof x !== "string" && !(x instanceof SymStr)) return [...x].map(byte); throw new Unsupported("bytes from " + Object.prototype.toString.call(x)); }
function u8(buf) {
  return function (x, off, len) {
    if (x === undefined) return new Bytes([], 0, 0, buf);
    if (typeof x === "number") { if (x < 0) throw new RangeError("Invalid typed array length: " + x); return new Bytes(new Array(x).fill(0), 0, x, buf); }
    if (isBytes(x) && x.arrbuf) { return new Bytes(x.st, (off || 0), len === undefined ? x.len - (off || 0) : len, buf); }
    if (x instanceof ArrayBuffer) x = new Uint8Array(x, off, len);
    const v = bytesOf(x);
    return new Bytes(v.slice(), 0, v.length, buf);
  };
}
const mkU8 = u8(false), mkBuf = u8(true);
const Uint8ArrayS = new Proxy(Uint8Array, { construct: (t, a) => mkU8(...a), get: (t, k) => k === "from" ? (x, f) => { let v = isBytes(x) ? x._arr() : Array.isArray(x) ? x : [...x]; if (f) v = v.map((e, i) => f(e, i)); return mkU8(v); } : k === "of" ? (...v) => mkU8(v) : k === Symbol.hasInstance ? x => isBytes(x) || x instanceof Uint8Array : t[k] });
const BufferS = {
  from(x, enc) {
    if (x instanceof SymStr) {
      if (enc !== "hex") throw new Unsupported("Buffer.from string " + enc);
      const cs = x.cs, r = [];
      for (let i = 0; i + 1 < cs.length; i += 2) {
        if (!isHex(cs[i]) || !isHex(cs[i + 1])) break;
        const g = c => typeof c === "string" ? `#x${c.toLowerCase()}` : c.nib;
        r.push(def("(_ BitVec 8)", `(concat ${g(cs[i])} ${g(cs[i + 1])})`));
      }
      return new Bytes(r, 0, r.length, true);
    }
    if (typeof x === "string") { const b = Buffer.from(x, enc); return new Bytes([...b], 0, b.length, true); }
    if (typeof x === "number" || isI(x)) throw new TypeError("first argument must be a string, Buffer, ...");
    return mkBuf(x);
  },
  alloc(n, f) { const b = new Bytes(new Array(n).fill(0), 0, n, true); if (f) b.fill(f); return b; },
  allocUnsafe(n) { return BufferS.alloc(n); },
  concat(l, n) { let v = [].concat(...l.map(bytesOf)); if (n !== undefined) { v = v.slice(0, n); while (v.length < n) v.push(0); } return new Bytes(v, 0, v.length, true); },
  isBuffer: x => isBytes(x) && x.isBuf || Buffer.isBuffer(x),
  byteLength: (x) => x.length,
  compare(a, b) { throw new Unsupported("Buffer.compare"); },
  [Symbol.hasInstance]: x => isBytes(x) && x.isBuf
};
function StringS(x) { if (x instanceof SymStr || x instanceof SymDec) return x; if (isI(x)) return x.toString(); if (isB(x)) return String(truth(x)); return String(x); }
const stack = [];
const rt = {
  op, truth,
  push(x) { const v = truth(x); stack.push(x); return v; }, drop() { stack.pop(); }, pop() { return stack.pop(); },
  not(x) { if (isB(x)) return new SymBool(`(not ${x.t})`); return !truth(x); },
  neg(x) { if (isI(x)) return op("-", x.kind === "bigint" ? 0n : 0, x); if (isB(x)) return -Number(truth(x)); return -x; },
  num(x) { return isI(x) || x instanceof SymStr || isB(x) ? NumberS(x) : +x; },
  unsup(o, x) { if (isI(x)) throw new Unsupported(o); return ~x; },
  typeOf(x) { return isI(x) ? x.kind : isB(x) ? "boolean" : x instanceof SymStr || x instanceof SymDec ? "string" : typeof x; },
  conc(x) { if (isI(x) || isB(x) || x instanceof SymStr || x instanceof SymDec) throw new Unsupported("switch on a symbolic value"); return x; },
  str: StringS
};
function sym(name, bits, kind = "bigint") { st.decls.includes(`(declare-const ${name} ${bvs(bits)})`) || st.decls.push(`(declare-const ${name} ${bvs(bits)})`); return mk(bits + 1, `(concat #b0 ${name})`, kind); }
function symBytes(name, n, buf) {
  const r = [];
  for (let i = 0; i < n; i++) { const d = `(declare-const ${name}_${i} (_ BitVec 8))`; st.decls.includes(d) || st.decls.push(d); r.push(`${name}_${i}`); }
  return new Bytes(r, 0, n, buf);
}
function symBool(name) { const d = `(declare-const ${name} Bool)`; st.decls.includes(d) || st.decls.push(d); return new SymBool(name); }
// run fn on every path; returns list of {pc, value | error}
async function explore(fn, max, stop) {
  st.todo = [[]];
  const out = [];
  while (st.todo.length && !stop()) {
    if (out.length > max) throw new Unsupported("too many paths");
    st.trail = st.todo.pop(); st.pos = 0; st.pc = []; stack.length = 0;
    let r;
    try { r = { value: await fn() }; } catch (e) { if (e instanceof Dead) continue; r = { error: e }; }
    r.pc = st.pc.slice();
    out.push(r);
  }
  return out;
}
module.exports = { st, z3, def, lit, bvs, SymBool, SymInt, SymStr, SymDec, Bytes, Unsupported, Dead, op, truth, truthT, decide, mayBe, lift, ext, mk, bigOf, eqBytes, bytesOf, byteT, byteNum, toBig, rt, sym, symBytes, symBool, explore, BigIntS, NumberS, parseIntS, Uint8ArrayS, BufferS, StringS, isI, isB, isBytes, nibVal, isHex };
