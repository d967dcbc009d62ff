//! A field element that records what is computed with it.  Yes/no questions (zero, equal, odd, ...) are answered by a script
//! (environment variable SCRIPT, a string of 0 and 1; when it runs out the answer is 0) and recorded.
use ff::{Field, PrimeField};
use core::ops::*;
use std::sync::Mutex;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

struct State {
    lines: Vec<String>,
    asked: usize,
}
static S: Mutex<State> = Mutex::new(State { lines: Vec::new(), asked: 0 });
static N: Mutex<u32> = Mutex::new(0);

/// id of a node; 0 is zero, 1 is one, others are NODE + 2
#[derive(Clone, Copy, Debug)]
pub struct Fe(pub u32);

fn node(s: String) -> Fe {
    let mut n = N.lock().unwrap();
    *n += 1;
    let id = *n + 1;
    S.lock().unwrap().lines.push(format!("N {} {}", id, s));
    Fe(id)
}
pub fn event(s: String) {
    S.lock().unwrap().lines.push(s);
}
pub fn ask(kind: &str, a: Fe, b: Fe) -> Choice {
    let mut s = S.lock().unwrap();
    let script = std::env::var("SCRIPT").unwrap_or_default();
    let k = s.asked;
    s.asked += 1;
    let r = script.as_bytes().get(k).map(|c| *c == b'1').unwrap_or(false);
    s.lines.push(format!("ASK {} {} {} {}", kind, a.0, b.0, r as u8));
    Choice::from(r as u8)
}
pub fn dump() {
    let s = S.lock().unwrap();
    println!("N 0 k 0\nN 1 k 1");
    for l in s.lines.iter() {
        println!("{}", l);
    }
}
impl Fe {
    pub const fn zero_() -> Fe {
        Fe(0)
    }
    pub fn var(n: &str) -> Fe {
        node(format!("v {}", n))
    }
    pub fn konst(l: [u64; 4]) -> Fe {
        node(format!("k {:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0]))
    }
    pub fn from_raw(l: [u64; 4]) -> Fe {
        Fe::konst(l)
    }
    pub fn out(self, name: &str) {
        event(format!("OUT {} {}", name, self.0));
    }
    pub const ZERO: Fe = Fe(0);
    pub const ONE: Fe = Fe(1);
}
impl Default for Fe {
    fn default() -> Fe {
        Fe(0)
    }
}
impl PartialEq for Fe {
    fn eq(&self, o: &Fe) -> bool {
        self.0 == o.0 || bool::from(ask("eq", *self, *o))
    }
}
impl Eq for Fe {}
impl ConstantTimeEq for Fe {
    fn ct_eq(&self, o: &Fe) -> Choice {
        if self.0 == o.0 {
            return Choice::from(1);
        }
        ask("eq", *self, *o)
    }
}
impl ConditionallySelectable for Fe {
    fn conditional_select(a: &Fe, b: &Fe, c: Choice) -> Fe {
        if bool::from(c) {
            *b
        } else {
            *a
        }
    }
}
macro_rules! op {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $c:literal) => {
        impl $t<Fe> for Fe {
            type Output = Fe;
            fn $f(self, o: Fe) -> Fe {
                node(format!("{} {} {}", $c, self.0, o.0))
            }
        }
        impl<'a> $t<&'a Fe> for Fe {
            type Output = Fe;
            fn $f(self, o: &'a Fe) -> Fe {
                self.$f(*o)
            }
        }
        impl<'a> $t<Fe> for &'a Fe {
            type Output = Fe;
            fn $f(self, o: Fe) -> Fe {
                (*self).$f(o)
            }
        }
        impl<'a, 'b> $t<&'b Fe> for &'a Fe {
            type Output = Fe;
            fn $f(self, o: &'b Fe) -> Fe {
                (*self).$f(*o)
            }
        }
        impl $ta<Fe> for Fe {
            fn $fa(&mut self, o: Fe) {
                *self = (*self).$f(o)
            }
        }
        impl<'a> $ta<&'a Fe> for Fe {
            fn $fa(&mut self, o: &'a Fe) {
                *self = (*self).$f(*o)
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, "+");
op!(Sub, sub, SubAssign, sub_assign, "-");
op!(Mul, mul, MulAssign, mul_assign, "*");
impl Neg for Fe {
    type Output = Fe;
    fn neg(self) -> Fe {
        node(format!("- 0 {}", self.0))
    }
}
impl<'a> Neg for &'a Fe {
    type Output = Fe;
    fn neg(self) -> Fe {
        -*self
    }
}
impl From<u64> for Fe {
    fn from(v: u64) -> Fe {
        Fe::konst([v, 0, 0, 0])
    }
}
impl core::iter::Sum for Fe {
    fn sum<I: Iterator<Item = Fe>>(i: I) -> Fe {
        i.fold(Fe(0), |a, b| a + b)
    }
}
impl core::iter::Product for Fe {
    fn product<I: Iterator<Item = Fe>>(i: I) -> Fe {
        i.fold(Fe(1), |a, b| a * b)
    }
}
impl Field for Fe {
    fn random(_: impl rand_core::RngCore) -> Fe {
        Fe::var("random")
    }
    fn zero() -> Fe {
        Fe(0)
    }
    fn one() -> Fe {
        Fe(1)
    }
    fn square(&self) -> Fe {
        *self * *self
    }
    fn double(&self) -> Fe {
        *self + *self
    }
    fn invert(&self) -> CtOption<Fe> {
        CtOption::new(node(format!("/ 1 {}", self.0)), Choice::from(1))
    }
    fn sqrt(&self) -> CtOption<Fe> {
        let c = ask("square", *self, *self);
        CtOption::new(node(format!("sqrt {} 0", self.0)), c)
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Fe {
        let mut h = String::new();
        for e in exp.as_ref().iter().rev() {
            h.push_str(&format!("{:016x}", e));
        }
        node(format!("^ {} {}", self.0, h))
    }
}
#[derive(Copy, Clone)]
pub struct Repr(pub [u8; 32]);
impl Default for Repr {
    fn default() -> Repr {
        Repr([0; 32])
    }
}
impl AsRef<[u8]> for Repr {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Repr {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl PrimeField for Fe {
    type Repr = Repr;
    const NUM_BITS: u32 = 256;
    const CAPACITY: u32 = 255;
    const S: u32 = 1;
    fn from_str_vartime(s: &str) -> Option<Fe> {
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
            return None;
        }
        Some(node(format!("d {}", s)))
    }
    fn from_repr(r: Repr) -> CtOption<Fe> {
        let mut l = [0u64; 4];
        for i in 0..32 {
            l[i / 8] |= (r.0[i] as u64) << (8 * (i % 8));
        }
        CtOption::new(Fe::konst(l), Choice::from(1))
    }
    fn to_repr(&self) -> Repr {
        panic!("encoding of a symbolic value")
    }
    fn is_odd(&self) -> Choice {
        ask("odd", *self, *self)
    }
    fn multiplicative_generator() -> Fe {
        Fe::var("generator")
    }
    fn root_of_unity() -> Fe {
        Fe::var("root")
    }
}
