//! Scenarios: each runs the crate's own functions over symbolic values and states what the result has to be.
#![allow(missing_docs, dead_code, clippy::all)]
use crate::commitments::{Commitments, MultiCommitGens};
use crate::dense_mlpoly::*;
use crate::errors::{ProofVerifyError, R1CSError};
use crate::group::*;
use crate::math::Math;
use crate::nizk::*;
use crate::product_tree::*;
use crate::r1csinstance::*;
use crate::r1csproof::*;
use crate::random::RandomTape;
use crate::scalar::Scalar;
use crate::sparse_mlpoly::*;
use crate::sumcheck::*;
use crate::transcript::*;
use crate::unipoly::*;
use crate::{Assignment, Instance, NIZKGens, SNARKGens, NIZK, SNARK};
use merlin::Transcript;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symcore::{Id, TEv};

// ---------------------------------------------------------------- helpers
fn s(n: &str) -> Scalar {
  Scalar::sym(n)
}
fn vs(n: &str, k: usize) -> Vec<Scalar> {
  (0..k).map(|i| Scalar::sym(&format!("{}{}", n, i))).collect()
}
fn k(x: u64) -> Scalar {
  Scalar::from(x)
}
fn zero() -> Scalar {
  Scalar::zero()
}
fn one() -> Scalar {
  Scalar::one()
}
fn ceq(n: &str, a: Scalar, b: Scalar) {
  symcore::expect_eq(&n.replace(' ', "_"), a.id(), b.id());
}
fn fact(n: &str, ok: bool) {
  symcore::expect(&n.replace(' ', "_"), ok);
}
/// discrete logarithm of a group element
fn g(p: &GroupElement) -> Scalar {
  Scalar::of(p.0 .0)
}
fn pt(x: Scalar) -> GroupElement {
  secq256k1::AffinePoint(secq256k1::Dlog(x.id()))
}
fn cp(x: Scalar) -> CompressedGroup {
  secq256k1::EncodedPoint::of(x.id())
}
fn c(p: &CompressedGroup) -> Scalar {
  Scalar::of(p.id())
}
fn dot(a: &[Scalar], b: &[Scalar]) -> Scalar {
  let mut r = zero();
  for i in 0..a.len() {
    r = r + a[i] * b[i];
  }
  r
}
/// equality factor of a Boolean index, most significant variable first
fn chi(r: &[Scalar], idx: usize) -> Scalar {
  let n = r.len();
  let mut p = one();
  for j in 0..n {
    let bit = (idx >> (n - 1 - j)) & 1;
    p = p * if bit == 1 { r[j] } else { one() - r[j] };
  }
  p
}
fn chis(r: &[Scalar]) -> Vec<Scalar> {
  (0..1usize << r.len()).map(|i| chi(r, i)).collect()
}
fn mle(z: &[Scalar], r: &[Scalar]) -> Scalar {
  dot(z, &chis(r))
}
fn lg(n: usize) -> usize {
  let mut k = 0;
  while 1usize << k < n {
    k += 1;
  }
  k
}
fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    if let Some(x) = e.downcast_ref::<String>() {
      x.replace('\n', " ")
    } else if let Some(x) = e.downcast_ref::<&str>() {
      x.replace('\n', " ")
    } else {
      "panic".to_string()
    }
  })
}
/// the code under test must get through
fn must<T>(n: &str, f: impl FnOnce() -> T) -> Option<T> {
  symcore::ctx(n);
  let r = catch(f);
  symcore::ctx("");
  match r {
    Ok(x) => Some(x),
    Err(e) => {
      fact(&format!("{} panics: {}", n, e.chars().take(120).collect::<String>()), false);
      None
    }
  }
}
fn must_ok<T, E: std::fmt::Debug>(n: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
  match must(n, f) {
    Some(Ok(x)) => Some(x),
    Some(Err(e)) => {
      fact(&format!("{} refused: {:?}", n, e), false);
      None
    }
    None => None,
  }
}
fn tape() -> RandomTape {
  RandomTape::new(b"tape")
}
fn tr() -> Transcript {
  Transcript::new(b"t")
}
/// both sides must be in the same state: the next challenge agrees
fn same_state(n: &str, a: &mut Transcript, b: &mut Transcript) {
  let x = a.challenge_scalar(b"end");
  let y = b.challenge_scalar(b"end");
  fact(&format!("FS: {}: prover and verifier end with the same transcript", n), x.id() == y.id());
}
fn tree<T: Serialize>(t: &T) -> Value {
  serde_json::to_value(t).unwrap()
}
fn back<T: DeserializeOwned>(v: &Value) -> T {
  serde_json::from_value(v.clone()).unwrap()
}
fn leaf(v: &Value) -> Scalar {
  let t = v.as_str().unwrap();
  Scalar::of(Id(t[2..].parse().unwrap()))
}
fn leaves(v: &Value) -> Vec<Scalar> {
  v.as_array().unwrap().iter().map(leaf).collect()
}
/// every scalar and point of a proof becomes a variable of its own
fn freshen(v: &Value, path: &str) -> Value {
  match v {
    Value::String(t) if t.starts_with("#s") => Value::String(format!("#s{}", symcore::var(path).0)),
    Value::String(t) if t.starts_with("#p") => Value::String(format!("#p{}", symcore::var(path).0)),
    Value::Array(a) => Value::Array(a.iter().enumerate().map(|(i, x)| freshen(x, &format!("{}[{}]", path, i))).collect()),
    Value::Object(o) => {
      Value::Object(o.iter().map(|(n, x)| (n.clone(), freshen(x, &format!("{}.{}", path, n)))).collect())
    }
    x => x.clone(),
  }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
  let mut x = v;
  for k in p {
    x = match x {
      Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
      Value::Object(o) => o.get_mut(k).unwrap(),
      _ => unreachable!(),
    };
  }
  x
}
fn walk(v: &Value, p: &mut Vec<String>, f: &mut dyn FnMut(&[String], &Value)) {
  f(p, v);
  match v {
    Value::Array(a) => {
      for (i, x) in a.iter().enumerate() {
        p.push(i.to_string());
        walk(x, p, f);
        p.pop();
      }
    }
    Value::Object(o) => {
      for (n, x) in o.iter() {
        p.push(n.clone());
        walk(x, p, f);
        p.pop();
      }
    }
    _ => {}
  }
}

// ---------------------------------------------------------------- acceptance conditions
/// what a verifier has to check, and in which order what it reads is bound to the transcript
struct Spec {
  ev: Vec<TEv>,
  pos: usize,
  need: HashMap<Vec<u8>, (usize, String)>,
  have: HashMap<Vec<u8>, usize>,
  eqs: Vec<(String, Scalar, Scalar)>,
  bad: Vec<String>,
  ended: bool,
}
impl Spec {
  fn new(t: &Transcript) -> Spec {
    Spec {
      ev: symcore::tevents(t.id),
      pos: 0,
      need: HashMap::new(),
      have: HashMap::new(),
      eqs: vec![],
      bad: vec![],
      ended: false,
    }
  }
  fn raw(&mut self, n: &str, b: Vec<u8>) {
    let e = self.need.entry(b).or_insert((0, n.to_string()));
    e.0 += 1;
  }
  fn sc(&mut self, n: &str, x: Scalar) {
    self.raw(n, symcore::bytes(x.id()).to_vec());
  }
  fn scs(&mut self, n: &str, x: &[Scalar]) {
    for (i, y) in x.iter().enumerate() {
      self.sc(&format!("{}[{}]", n, i), *y);
    }
  }
  fn p(&mut self, n: &str, x: Scalar) {
    self.raw(n, cp(x).as_bytes().to_vec());
  }
  fn ps(&mut self, n: &str, x: &[Scalar]) {
    for (i, y) in x.iter().enumerate() {
      self.p(&format!("{}[{}]", n, i), *y);
    }
  }
  fn chal(&mut self, n: &str) -> Scalar {
    while self.pos < self.ev.len() {
      let e = self.ev[self.pos].clone();
      self.pos += 1;
      match e {
        TEv::Msg(_, m) => *self.have.entry(m).or_insert(0) += 1,
        TEv::Chal(id) => {
          for (m, (cnt, what)) in &self.need {
            if self.have.get(m).cloned().unwrap_or(0) < *cnt {
              self.bad.push(format!("{} not absorbed before challenge {}", what, n));
            }
          }
          return Scalar::of(Id(id));
        }
      }
    }
    if !self.ended {
      self.bad.push(format!("challenge {} is never drawn", n));
      self.ended = true;
    }
    zero()
  }
  fn chals(&mut self, n: &str, k: usize) -> Vec<Scalar> {
    (0..k).map(|i| self.chal(&format!("{}[{}]", n, i))).collect()
  }
  fn eq(&mut self, n: &str, a: Scalar, b: Scalar) {
    self.eqs.push((n.to_string(), a, b));
  }
}
fn outcome<T, E: std::fmt::Debug>(r: &Result<Result<T, E>, String>) -> String {
  match r {
    Ok(Ok(_)) => "ok".into(),
    Ok(Err(e)) => format!("err {:?}", e).chars().take(60).collect(),
    Err(e) => format!("panic {}", e).chars().take(60).collect(),
  }
}
/// The verifier accepts exactly when the stated equations hold: on the path where every comparison succeeds it must
/// accept, having compared what the specification says; on every path where one fails it must not.
fn accept_iff<T, E: std::fmt::Debug>(
  n: &str,
  run: impl Fn(&mut Transcript) -> Result<T, E>,
  spec: impl FnOnce(&mut Spec, &T),
) {
  let n = n.replace(' ', "_");
  if std::env::var("REPLAY").is_ok() {
    // concrete values: does the verifier accept them, and do they satisfy the specification?
    let mut t = tr();
    let r = catch(|| run(&mut t));
    symcore::log(format!("REPLAY {} {}", n, outcome(&r)));
    if let Ok(Ok(x)) = &r {
      let mut sp = Spec::new(&t);
      spec(&mut sp, x);
      for (m, a, b) in &sp.eqs {
        symcore::log(format!("RSPEC {} {}/{}", symcore::same_value(a.id(), b.id()), n, m.replace(' ', "_")));
      }
    }
    return;
  }
  symcore::assume(Some(vec![]));
  symcore::log(format!("PATH {}", n));
  let mut t = tr();
  symcore::ctx(&n);
  let r = catch(|| run(&mut t));
  symcore::ctx("");
  let cnt = symcore::decisions();
  symcore::assume(None);
  symcore::log(format!("ENDPATH {} {}", n, outcome(&r)));
  match &r {
    Ok(Ok(x)) => {
      let mut sp = Spec::new(&t);
      let ok = catch(|| spec(&mut sp, x));
      if let Err(e) = ok {
        fact(&format!("{}: specification cannot be evaluated: {}", n, e), false);
      }
      sp.bad.sort();
      sp.bad.dedup();
      for b in sp.bad.iter().take(6) {
        fact(&format!("FS: {}: {}", n, b), false);
      }
      if sp.bad.is_empty() {
        fact(&format!("FS: {}: messages absorbed before the challenges that depend on them", n), true);
      }
      for (m, a, b) in &sp.eqs {
        symcore::spec_eq(&format!("{}/{}", n, m.replace(' ', "_")), a.id(), b.id());
      }
      symcore::log(format!("ENDSPEC {}", n));
    }
    _ => {
      let o = outcome(&r);
      fact(&format!("{} does not accept when every equation holds: {}", n, o), false)
    }
  }
  for i in 0..cnt {
    let o = symcore::scoped(|| {
      let mut script = vec![true; i];
      script.push(false);
      symcore::assume(Some(script));
      let mut t = tr();
      let r = catch(|| run(&mut t));
      symcore::assume(None);
      outcome(&r)
    });
    if o == "ok" {
      fact(&format!("{}: accepted although comparison {} fails", n, i), false);
    } else {
      symcore::log(format!("REJ {} {} {}", n, i, o));
    }
  }
}
/// A proof with a missing, additional or undecodable component is not accepted even if every comparison succeeds.
fn shapes<T, E: std::fmt::Debug>(n: &str, base: &Value, skip: &[&str], run: impl Fn(&Value, &mut Transcript) -> Result<T, E>) {
  let n = n.replace(' ', "_");
  let mut arrays: Vec<Vec<String>> = vec![];
  let mut points: Vec<Vec<String>> = vec![];
  walk(base, &mut vec![], &mut |p, v| match v {
    Value::Array(_) => arrays.push(p.to_vec()),
    Value::String(t) if t.starts_with("#p") => points.push(p.to_vec()),
    _ => {}
  });
  let mut variants: Vec<(String, Value)> = vec![];
  let cut = |v: &mut Value, how: usize| {
    let a = v.as_array_mut().unwrap();
    match how {
      0 => {
        if a.is_empty() {
          return false;
        }
        a.pop();
      }
      1 => match a.last().cloned() {
        Some(x) => {
          let y = freshen(&x, "extra");
          a.push(y)
        }
        None => return false,
      },
      _ => {
        if a.len() < 2 {
          return false;
        }
        a.clear()
      }
    }
    true
  };
  let hows = ["one element fewer", "one element more", "empty"];
  {
    for a in &arrays {
      for how in 0..3 {
        let mut v = base.clone();
        if cut(at(&mut v, a), how) {
          variants.push((format!("{}: {}", a.join("."), hows[how]), v));
        }
      }
    }
    for (i, a) in arrays.iter().enumerate() {
      for b in &arrays[i + 1..] {
        if a.len() == b.len() && a[..a.len() - 1] == b[..b.len() - 1] {
          for h1 in 0..3 {
            for h2 in 0..3 {
              let mut v = base.clone();
              if cut(at(&mut v, a), h1) && cut(at(&mut v, b), h2) {
                variants.push((format!("{}: {}; {}: {}", a.join("."), hows[h1], b.join("."), hows[h2]), v));
              }
            }
          }
        }
      }
    }
    for a in &points {
      let mut v = base.clone();
      *at(&mut v, a) = Value::String("#px".into());
      variants.push((format!("{}: not a point", a.join(".")), v));
    }
  }
  // an element that is never looked at changes nothing; anything else accepted here is accepted on other grounds
  let base_cmp = symcore::scoped(|| {
    symcore::assume(Some(vec![]));
    let mut t = tr();
    let _ = catch(|| run(base, &mut t));
    let mut x = symcore::assumed();
    symcore::assume(None);
    x.sort();
    (x, t.challenge_scalar(b"end").id())
  });
  let mut refused = 0;
  let mut ignored = 0;
  let mut undecodable = 0;
  for (name, v) in &variants {
    if skip.iter().any(|x| name.starts_with(x)) {
      continue;
    }
    let o = symcore::scoped(|| {
      symcore::assume(Some(vec![]));
      let mut t = tr();
      let r = catch(|| run(v, &mut t));
      let mut x = symcore::assumed();
      symcore::assume(None);
      x.sort();
      let same = (x, t.challenge_scalar(b"end").id()) == base_cmp;
      if same && outcome(&r) == "ok" { "ignored".to_string() } else { outcome(&r) }
    });
    if name.ends_with(": not a point") && o != "ignored" {
      undecodable += 1;
      if !o.starts_with("err ") {
        fact(&format!("PT: {}: {} instead of an error with {}", n, o.replace("panic", "panics:"), name), false);
      }
    }
    if o == "ignored" {
      ignored += 1;
    } else if o == "ok" {
      fact(&format!("{}: accepted with {}", n, name), false);
    } else {
      refused += 1;
    }
  }
  if undecodable > 0 {
    fact(&format!("PT: {}: an error for each of {} points that does not decode", n, undecodable), true);
  }
  symcore::log(format!("SHAPES {} {} {}", n, refused, ignored));
}
fn gens(n: usize) -> MultiCommitGens {
  MultiCommitGens {
    n,
    G: (0..n).map(|i| pt(s(&format!("G{}_", i)))).collect(),
    h: pt(s("H")),
  }
}
fn com(gs: &MultiCommitGens, x: &[Scalar], b: Scalar) -> Scalar {
  let mut r = b * g(&gs.h);
  for i in 0..x.len() {
    r = r + x[i] * g(&gs.G[i]);
  }
  r
}

include!("verif_scenarios.rs");

pub fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  std::panic::set_hook(Box::new(|_| {}));
  let seed: u64 = std::env::var("SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
  if let Ok(o) = std::env::var("OVER") {
    for kv in o.split(',').filter(|x| !x.is_empty()) {
      let (n, v) = kv.split_once('=').unwrap();
      symcore::override_var(n, [v.parse().unwrap(), 0, 0, 0]);
    }
  }
  if let Ok(f) = std::env::var("VALS") {
    for l in std::fs::read_to_string(f).unwrap().lines() {
      let (n, v) = l.split_once(' ').unwrap();
      symcore::set_value(n, symcore::parse_hex(v));
    }
  }
  symcore::reset(seed);
  let n: Vec<usize> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
  if let Err(e) = catch(|| scenario(&a[0], &n)) {
    fact(&format!("{} does not finish: {}", a[0], e), false);
  }
  print!("{}", symcore::dump());
}
