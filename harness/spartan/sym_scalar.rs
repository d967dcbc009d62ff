//! Stands in for the field element type: the same interface over symbolic values.
use core::borrow::Borrow;
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use symcore::Id;
use zeroize::Zeroize;

#[derive(Clone, Copy)]
pub struct Scalar(pub(crate) Id);

impl Serialize for Scalar {
  fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
    if serializer.is_human_readable() {
      return serializer.serialize_str(&format!("#s{}", self.0 .0));
    }
    symcore::bytes(self.0).serialize(serializer)
  }
}
impl<'de> Deserialize<'de> for Scalar {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    if d.is_human_readable() {
      let t = String::deserialize(d)?;
      return Ok(Scalar(Id(t.strip_prefix("#s").unwrap().parse().unwrap())));
    }
    let b = <[u8; 32]>::deserialize(d)?;
    Ok(Scalar(symcore::lookup(&symcore::from_le(&b))))
  }
}
impl fmt::Debug for Scalar {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "s{}", self.0 .0)
  }
}
impl From<u64> for Scalar {
  fn from(val: u64) -> Scalar {
    Scalar(symcore::konst([val, 0, 0, 0]))
  }
}
impl ConstantTimeEq for Scalar {
  fn ct_eq(&self, other: &Self) -> Choice {
    Choice::from((self == other) as u8)
  }
}
impl PartialEq for Scalar {
  fn eq(&self, other: &Self) -> bool {
    symcore::decide_eq(self.0, other.0)
  }
}
impl Eq for Scalar {}
impl ConditionallySelectable for Scalar {
  fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
    if choice.unwrap_u8() == 1 {
      *b
    } else {
      *a
    }
  }
}
impl Neg for Scalar {
  type Output = Scalar;
  fn neg(self) -> Scalar {
    Scalar(symcore::neg(self.0))
  }
}
impl<'a> Neg for &'a Scalar {
  type Output = Scalar;
  fn neg(self) -> Scalar {
    Scalar(symcore::neg(self.0))
  }
}
macro_rules! binop {
  ($t:ident, $f:ident, $ta:ident, $fa:ident, $g:path) => {
    impl<'a, 'b> $t<&'b Scalar> for &'a Scalar {
      type Output = Scalar;
      fn $f(self, o: &'b Scalar) -> Scalar {
        Scalar($g(self.0, o.0))
      }
    }
    impl<'b> $t<&'b Scalar> for Scalar {
      type Output = Scalar;
      fn $f(self, o: &'b Scalar) -> Scalar {
        Scalar($g(self.0, o.0))
      }
    }
    impl<'a> $t<Scalar> for &'a Scalar {
      type Output = Scalar;
      fn $f(self, o: Scalar) -> Scalar {
        Scalar($g(self.0, o.0))
      }
    }
    impl $t<Scalar> for Scalar {
      type Output = Scalar;
      fn $f(self, o: Scalar) -> Scalar {
        Scalar($g(self.0, o.0))
      }
    }
    impl $ta<Scalar> for Scalar {
      fn $fa(&mut self, o: Scalar) {
        self.0 = $g(self.0, o.0);
      }
    }
    impl<'b> $ta<&'b Scalar> for Scalar {
      fn $fa(&mut self, o: &'b Scalar) {
        self.0 = $g(self.0, o.0);
      }
    }
  };
}
binop!(Add, add, AddAssign, add_assign, symcore::add);
binop!(Sub, sub, SubAssign, sub_assign, symcore::sub);
binop!(Mul, mul, MulAssign, mul_assign, symcore::mul);
impl Default for Scalar {
  fn default() -> Self {
    Scalar::zero()
  }
}
impl<T: Borrow<Scalar>> Product<T> for Scalar {
  fn product<I: Iterator<Item = T>>(iter: I) -> Self {
    iter.fold(Scalar::one(), |acc, item| acc * item.borrow())
  }
}
impl<T: Borrow<Scalar>> Sum<T> for Scalar {
  fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
    iter.fold(Scalar::zero(), |acc, item| acc + item.borrow())
  }
}
impl Zeroize for Scalar {
  fn zeroize(&mut self) {
    *self = Scalar::zero();
  }
}
impl Scalar {
  pub fn zero() -> Scalar {
    Scalar(symcore::zero())
  }
  pub fn one() -> Scalar {
    Scalar(symcore::one())
  }
  pub fn random<Rng: RngCore + CryptoRng>(_rng: &mut Rng) -> Self {
    Scalar(symcore::var("rnd"))
  }
  pub fn double(&self) -> Scalar {
    self + self
  }
  pub fn from_bytes(bytes: &[u8; 32]) -> CtOption<Scalar> {
    let v = symcore::from_le(bytes);
    let ok = symcore::is_reduced(&v);
    let id = if ok { symcore::lookup(&v) } else { symcore::zero() };
    CtOption::new(Scalar(id), Choice::from(ok as u8))
  }
  pub fn to_bytes(&self) -> [u8; 32] {
    symcore::bytes(self.0)
  }
  pub fn from_bytes_wide(bytes: &[u8; 64]) -> Scalar {
    Scalar(symcore::lookup(&symcore::from_wide(bytes)))
  }
  pub fn from_raw(val: [u64; 4]) -> Self {
    Scalar(symcore::lookup(&symcore::vadd(&val, &[0; 4])))
  }
  pub fn square(&self) -> Scalar {
    self * self
  }
  pub fn pow(&self, by: &[u64; 4]) -> Self {
    let mut r = Scalar::one();
    for i in (0..256).rev() {
      r = r.square();
      if (by[i / 64] >> (i % 64)) & 1 == 1 {
        r *= self;
      }
    }
    r
  }
  pub fn pow_vartime(&self, by: &[u64; 4]) -> Self {
    self.pow(by)
  }
  pub fn invert(&self) -> CtOption<Self> {
    let z = *self == Scalar::zero();
    let r = if z { Scalar::zero() } else { Scalar(symcore::inv(self.0)) };
    CtOption::new(r, Choice::from(!z as u8))
  }
  pub fn batch_invert(inputs: &mut [Scalar]) -> Scalar {
    let mut all = Scalar::one();
    for x in inputs.iter_mut() {
      *x = Scalar(symcore::inv(x.0));
      all *= &*x;
    }
    all
  }
  pub fn mul(&self, rhs: &Self) -> Self {
    self * rhs
  }
  pub fn sub(&self, rhs: &Self) -> Self {
    self - rhs
  }
  pub fn add(&self, rhs: &Self) -> Self {
    self + rhs
  }
  pub fn neg(&self) -> Self {
    -self
  }
  pub fn sym(name: &str) -> Scalar {
    Scalar(symcore::var(name))
  }
  pub fn id(&self) -> Id {
    self.0
  }
  pub fn of(id: Id) -> Scalar {
    Scalar(id)
  }
}
impl<'a> From<&'a Scalar> for [u8; 32] {
  fn from(value: &'a Scalar) -> [u8; 32] {
    value.to_bytes()
  }
}
impl From<Scalar> for [u8; 32] {
  fn from(value: Scalar) -> [u8; 32] {
    value.to_bytes()
  }
}
