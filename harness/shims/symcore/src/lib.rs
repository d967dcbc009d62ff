//! Symbolic scalars of F_q: a global expression DAG in which every node also carries its value at one assignment.
//! The program under test runs once per path; equalities it relies on are logged and proved afterwards for all values.
use std::cell::RefCell;
use std::collections::HashMap;

pub type V = [u64; 4];
/// q = 2^256 - 2^32 - 977
pub const Q: V = [0xfffffffefffffc2f, !0, !0, !0];
const C: u64 = 0x1000003d1;

fn ge(a: &V, b: &V) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &V, b: &V) -> (V, bool) {
    let mut r = [0u64; 4];
    let mut bw = false;
    for i in 0..4 {
        let (x, o1) = a[i].overflowing_sub(b[i]);
        let (y, o2) = x.overflowing_sub(bw as u64);
        r[i] = y;
        bw = o1 | o2;
    }
    (r, bw)
}
fn add_raw(a: &V, b: &V) -> (V, bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn vadd(a: &V, b: &V) -> V {
    let (r, c) = add_raw(a, b);
    if c || ge(&r, &Q) {
        sub_raw(&r, &Q).0
    } else {
        r
    }
}
pub fn vsub(a: &V, b: &V) -> V {
    let (r, bw) = sub_raw(a, b);
    if bw {
        add_raw(&r, &Q).0
    } else {
        r
    }
}
pub fn vmul(a: &V, b: &V) -> V {
    let mut t = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += t[i + j] as u128 + (a[i] as u128) * (b[j] as u128);
            t[i + j] = c as u64;
            c >>= 64;
        }
        t[i + 4] = c as u64;
    }
    // fold twice: hi * C + lo
    let mut r = [0u64; 5];
    let mut c = 0u128;
    for i in 0..4 {
        c += t[i] as u128 + (t[i + 4] as u128) * (C as u128);
        r[i] = c as u64;
        c >>= 64;
    }
    r[4] = c as u64;
    let mut c = (r[4] as u128) * (C as u128);
    let mut s = [0u64; 4];
    for i in 0..4 {
        c += r[i] as u128;
        s[i] = c as u64;
        c >>= 64;
    }
    if c != 0 {
        s = add_raw(&s, &[C, 0, 0, 0]).0;
    }
    if ge(&s, &Q) {
        s = sub_raw(&s, &Q).0;
    }
    s
}
pub fn vinv(a: &V) -> V {
    let e = sub_raw(&Q, &[2, 0, 0, 0]).0;
    let mut r = [1, 0, 0, 0];
    for i in (0..256).rev() {
        r = vmul(&r, &r);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = vmul(&r, a);
        }
    }
    r
}
pub fn to_le(v: &V) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&v[i].to_le_bytes());
    }
    o
}
pub fn from_le(b: &[u8]) -> V {
    let mut v = [0u64; 4];
    for i in 0..4 {
        v[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    v
}
pub fn is_reduced(v: &V) -> bool {
    !ge(v, &Q)
}
/// value of 8 little-endian words mod q
pub fn from_wide(b: &[u8; 64]) -> V {
    let lo = from_le(&b[..32]);
    let hi = from_le(&b[32..]);
    let red = |v: V| if ge(&v, &Q) { sub_raw(&v, &Q).0 } else { v };
    vadd(&red(lo), &vmul(&red(hi), &[C, 0, 0, 0]))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    Neg,
    Inv,
}
#[derive(Clone)]
struct Node {
    op: Op,
    a: u32,
    b: u32,
    v: V,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Id(pub u32);

#[derive(Default)]
struct Dag {
    n: Vec<Node>,
    names: HashMap<u32, String>,
    cons: HashMap<(Op, u32, u32), u32>,
    consts: HashMap<V, u32>,
    by_val: HashMap<V, u32>,
    over: HashMap<String, V>,
    vals: HashMap<String, V>,
    taken_pairs: Vec<(u32, u32)>,
    ctx: String,
    out: Vec<String>,
    seed: u64,
    fresh: HashMap<String, usize>,
    assume: Option<Vec<bool>>,
    taken: usize,
    ndec: usize,
    interned: HashMap<Vec<u8>, u32>,
    known: HashMap<(u32, u32), bool>,
    tlog: Vec<(usize, TEv)>,
}
/// one event of a transcript
#[derive(Clone, Debug)]
pub enum TEv {
    Msg(String, Vec<u8>),
    Chal(u32),
}
thread_local!(static D: RefCell<Dag> = RefCell::new(Dag::default()));

fn hash_bytes(seed: u64, data: &[u8]) -> V {
    // four independent mixes of the data; only has to look random
    let mut o = [0u64; 4];
    for (k, w) in o.iter_mut().enumerate() {
        let mut h = seed ^ 0x9e3779b97f4a7c15u64.wrapping_mul(k as u64 + 1);
        for &b in data {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3).rotate_left(23);
            h ^= h >> 29;
        }
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 33;
        *w = h;
    }
    o[3] >>= 1;
    o
}

/// forget everything and start a new run
pub fn reset(seed: u64) {
    D.with(|d| {
        let mut d = d.borrow_mut();
        let over = std::mem::take(&mut d.over);
        let vals = std::mem::take(&mut d.vals);
        *d = Dag::default();
        d.seed = seed;
        d.over = over;
        d.vals = vals;
    });
    konst([0; 4]);
    konst([1, 0, 0, 0]);
}
pub fn override_var(name: &str, v: V) {
    D.with(|d| d.borrow_mut().over.insert(name.to_string(), v));
}
pub fn clear_overrides() {
    D.with(|d| d.borrow_mut().over.clear());
}
pub fn konst(v: V) -> Id {
    D.with(|d| {
        let mut d = d.borrow_mut();
        if let Some(&i) = d.consts.get(&v) {
            return Id(i);
        }
        let i = d.n.len() as u32;
        d.n.push(Node { op: Op::Const, a: 0, b: 0, v });
        d.consts.insert(v, i);
        d.by_val.entry(v).or_insert(i);
        Id(i)
    })
}
fn newvar(name: String, v: V) -> Id {
    D.with(|d| {
        let mut d = d.borrow_mut();
        let v = d.over.get(&name).or(d.vals.get(&name)).cloned().unwrap_or(v);
        let i = d.n.len() as u32;
        d.n.push(Node { op: Op::Var, a: 0, b: 0, v });
        d.by_val.entry(v).or_insert(i);
        d.names.insert(i, name);
        Id(i)
    })
}
/// concrete value of the variable with this (unique) name
pub fn set_value(name: &str, v: V) {
    D.with(|d| d.borrow_mut().vals.insert(name.to_string(), v));
}
pub fn parse_hex(s: &str) -> V {
    let mut o = [0u64; 4];
    let t = format!("{:0>64}", s);
    for k in 0..4 {
        o[3 - k] = u64::from_str_radix(&t[16 * k..16 * k + 16], 16).unwrap();
    }
    o
}
pub fn same_value(a: Id, b: Id) -> bool {
    val(a) == val(b)
}
/// the comparisons assumed to succeed since `assume`
pub fn assumed() -> Vec<(u32, u32)> {
    D.with(|d| d.borrow().taken_pairs.clone())
}
/// record a transcript event
pub fn tlog(t: usize, e: TEv) {
    D.with(|d| d.borrow_mut().tlog.push((t, e)));
}
/// the events of transcript t so far
pub fn tevents(t: usize) -> Vec<TEv> {
    D.with(|d| d.borrow().tlog.iter().filter(|x| x.0 == t).map(|x| x.1.clone()).collect())
}
/// a fresh variable; the name is made unique
pub fn var(name: &str) -> Id {
    if let Some(v) = D.with(|d| d.borrow().over.get(name).cloned()) {
        return konst(v);
    }
    let (nm, v) = D.with(|d| {
        let mut d = d.borrow_mut();
        let c = d.fresh.entry(name.to_string()).or_insert(0);
        *c += 1;
        let nm = if *c == 1 { name.to_string() } else { format!("{}#{}", name, *c) };
        let v = hash_bytes(d.seed, nm.as_bytes());
        (nm, v)
    });
    newvar(nm, v)
}
/// the variable that stands for an unpredictable function of `key` (random oracle)
pub fn oracle(prefix: &str, key: &[u8]) -> Id {
    let mut k = prefix.as_bytes().to_vec();
    k.push(0);
    k.extend_from_slice(key);
    if let Some(i) = D.with(|d| d.borrow().interned.get(&k).cloned()) {
        return Id(i);
    }
    let v = D.with(|d| hash_bytes(d.borrow().seed ^ 0x5bd1e995, &k));
    let n = D.with(|d| {
        let mut d = d.borrow_mut();
        let c = d.fresh.entry(prefix.to_string()).or_insert(0);
        *c += 1;
        *c
    });
    let id = newvar(format!("{}{}", prefix, n - 1), v);
    D.with(|d| d.borrow_mut().interned.insert(k, id.0));
    id
}
pub fn val(a: Id) -> V {
    D.with(|d| d.borrow().n[a.0 as usize].v)
}
pub fn is_const(a: Id) -> bool {
    D.with(|d| d.borrow().n[a.0 as usize].op == Op::Const)
}
fn mk(op: Op, a: u32, b: u32, v: V) -> Id {
    D.with(|d| {
        let mut d = d.borrow_mut();
        if let Some(&i) = d.cons.get(&(op, a, b)) {
            return Id(i);
        }
        let i = d.n.len() as u32;
        d.n.push(Node { op, a, b, v });
        d.cons.insert((op, a, b), i);
        d.by_val.entry(v).or_insert(i);
        Id(i)
    })
}
const ZERO: Id = Id(0);
const ONE: Id = Id(1);
pub fn zero() -> Id {
    if D.with(|d| d.borrow().n.is_empty()) {
        reset(1);
    }
    ZERO
}
pub fn one() -> Id {
    zero();
    ONE
}
pub fn add(a: Id, b: Id) -> Id {
    if a == ZERO {
        return b;
    }
    if b == ZERO {
        return a;
    }
    let v = vadd(&val(a), &val(b));
    if is_const(a) && is_const(b) {
        return konst(v);
    }
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::Add, a.0, b.0, v)
}
pub fn sub(a: Id, b: Id) -> Id {
    if b == ZERO {
        return a;
    }
    if a == b {
        return ZERO;
    }
    let v = vsub(&val(a), &val(b));
    if is_const(a) && is_const(b) {
        return konst(v);
    }
    mk(Op::Sub, a.0, b.0, v)
}
pub fn mul(a: Id, b: Id) -> Id {
    if a == ZERO || b == ZERO {
        return ZERO;
    }
    if a == ONE {
        return b;
    }
    if b == ONE {
        return a;
    }
    let v = vmul(&val(a), &val(b));
    if is_const(a) && is_const(b) {
        return konst(v);
    }
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::Mul, a.0, b.0, v)
}
pub fn neg(a: Id) -> Id {
    if a == ZERO {
        return a;
    }
    let v = vsub(&[0; 4], &val(a));
    if is_const(a) {
        return konst(v);
    }
    mk(Op::Neg, a.0, 0, v)
}
pub fn inv(a: Id) -> Id {
    let v = vinv(&val(a));
    if is_const(a) {
        return konst(v);
    }
    mk(Op::Inv, a.0, 0, v)
}
/// name of the part of the run that is executing, shown with what is logged
pub fn ctx(s: &str) {
    D.with(|d| d.borrow_mut().ctx = s.to_string());
}
pub fn log(s: String) {
    D.with(|d| d.borrow_mut().out.push(s));
}
/// decisions to take at comparisons whose sides differ at this assignment (None: what the values say)
pub fn assume(script: Option<Vec<bool>>) {
    D.with(|d| {
        let mut d = d.borrow_mut();
        d.assume = script;
        d.taken = 0;
        d.taken_pairs.clear();
        d.known.clear();
    });
}
/// number of scripted decisions met since `assume`
pub fn decisions() -> usize {
    D.with(|d| d.borrow().taken)
}
/// the program under test asks whether two values are equal
pub fn decide_eq(a: Id, b: Id) -> bool {
    if a == b {
        return true;
    }
    let same = val(a) == val(b);
    let (s, r) = D.with(|d| {
        let mut d = d.borrow_mut();
        let ctx = d.ctx.clone();
        d.ndec += 1;
        if same {
            return (format!("EQ {} {} {}", a.0, b.0, ctx), true);
        }
        let key = (a.0.min(b.0), a.0.max(b.0));
        if d.assume.is_some() {
            if let Some(&r) = d.known.get(&key) {
                return (String::new(), r);
            }
        }
        let k = d.taken;
        let force = d.assume.as_ref().map(|s| s.get(k).cloned().unwrap_or(true));
        if let Some(f) = force {
            d.taken += 1;
            d.known.insert(key, f);
            d.taken_pairs.push(key);
            return (format!("{} {} {} {}", if f { "ASM" } else { "DIS" }, a.0, b.0, ctx), f);
        }
        (format!("NE {} {} {}", a.0, b.0, ctx), false)
    });
    if !s.is_empty() {
        log(s);
    }
    r
}
/// the canonical node for the value of `a`: what is read back from its bytes
pub fn canon(a: Id) -> Id {
    let r = D.with(|d| {
        let d = d.borrow();
        Id(d.by_val[&d.n[a.0 as usize].v])
    });
    if r != a {
        log(format!("EQ {} {} encode", a.0, r.0));
    }
    r
}
pub fn lookup(v: &V) -> Id {
    match D.with(|d| d.borrow().by_val.get(v).cloned()) {
        Some(i) => Id(i),
        None => konst(*v),
    }
}
pub fn bytes(a: Id) -> [u8; 32] {
    to_le(&val(canon(a)))
}
/// specification: the two values must be equal for every assignment
pub fn expect_eq(name: &str, a: Id, b: Id) {
    if val(a) == val(b) {
        log(format!("CHECK {} {} {}", a.0, b.0, name));
    } else {
        log(format!("DIFF {} {} {}", a.0, b.0, name));
    }
}
/// specification: a fact that must be true on this path
pub fn expect(name: &str, ok: bool) {
    log(format!("FACT {} {}", if ok { "true" } else { "false" }, name));
}
/// specification: an equation the accepted path must imply
pub fn spec_eq(name: &str, a: Id, b: Id) {
    log(format!("SPEC {} {} {}", a.0, b.0, name));
}
fn hex(v: &V) -> String {
    format!("{:016x}{:016x}{:016x}{:016x}", v[3], v[2], v[1], v[0])
}
/// everything logged so far, with the DAG
pub fn dump() -> String {
    D.with(|d| {
        let d = d.borrow();
        let mut s = String::new();
        for (i, n) in d.n.iter().enumerate() {
            match n.op {
                Op::Const => s.push_str(&format!("N {} k {}\n", i, hex(&n.v))),
                Op::Var => s.push_str(&format!("N {} v {} {}\n", i, d.names[&(i as u32)], hex(&n.v))),
                Op::Add => s.push_str(&format!("N {} + {} {}\n", i, n.a, n.b)),
                Op::Sub => s.push_str(&format!("N {} - {} {}\n", i, n.a, n.b)),
                Op::Mul => s.push_str(&format!("N {} * {} {}\n", i, n.a, n.b)),
                Op::Neg => s.push_str(&format!("N {} n {}\n", i, n.a)),
                Op::Inv => s.push_str(&format!("N {} i {}\n", i, n.a)),
            }
        }
        for l in &d.out {
            s.push_str(l);
            s.push('\n');
        }
        s
    })
}

/// run something and forget the nodes and messages it produced
pub fn scoped<T>(f: impl FnOnce() -> T) -> T {
    let (n, o, t, fr, nd) = D.with(|d| {
        let d = d.borrow();
        (d.n.len() as u32, d.out.len(), d.tlog.len(), d.fresh.clone(), d.ndec)
    });
    let r = f();
    D.with(|d| {
        let mut d = d.borrow_mut();
        d.n.truncate(n as usize);
        d.out.truncate(o);
        d.tlog.truncate(t);
        d.fresh = fr;
        d.ndec = nd;
        d.names.retain(|k, _| *k < n);
        d.cons.retain(|_, v| *v < n);
        d.consts.retain(|_, v| *v < n);
        d.by_val.retain(|_, v| *v < n);
        d.interned.retain(|_, v| *v < n);
        d.known.clear();
    });
    r
}
