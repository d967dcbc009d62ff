//! The group as the vector of its elements' discrete logarithms: exact for every property that follows from the
//! group being of prime order q (what C12/C13 establish about the real group is not used here).
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use subtle::{Choice, ConstantTimeEq, CtOption};
use symcore::Id;

/// little-endian integer below 2^256
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct U256(pub symcore::V);
impl U256 {
    pub fn from_le_slice(b: &[u8]) -> Self {
        assert_eq!(b.len(), 32);
        U256(symcore::from_le(b))
    }
    pub fn from_be_slice(b: &[u8]) -> Self {
        assert_eq!(b.len(), 32);
        let mut c = b.to_vec();
        c.reverse();
        U256(symcore::from_le(&c))
    }
}
pub mod elliptic_curve {
    pub mod ops {
        pub trait Reduce<U> {
            fn from_uint_reduced(n: U) -> Self;
        }
    }
    pub use super::subtle_reexport as subtle;
}
pub mod subtle_reexport {
    pub use subtle::*;
}
#[derive(Clone, Copy, Debug)]
pub struct Scalar(pub Id);
impl elliptic_curve::ops::Reduce<U256> for Scalar {
    fn from_uint_reduced(n: U256) -> Self {
        let v = symcore::vadd(&n.0, &[0; 4]);
        Scalar(symcore::lookup(&v))
    }
}
pub type FieldBytes = [u8; 32];

#[derive(Clone, Copy, Debug)]
pub struct Dlog(pub Id);
impl PartialEq for Dlog {
    fn eq(&self, o: &Dlog) -> bool {
        symcore::decide_eq(self.0, o.0)
    }
}
impl Eq for Dlog {}
pub type AffinePointCore = Dlog;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ProjectivePoint(pub Dlog);
impl From<Dlog> for ProjectivePoint {
    fn from(d: Dlog) -> Self {
        ProjectivePoint(d)
    }
}
impl From<AffinePoint> for ProjectivePoint {
    fn from(d: AffinePoint) -> Self {
        ProjectivePoint(d.0)
    }
}
impl From<ProjectivePoint> for Dlog {
    fn from(d: ProjectivePoint) -> Self {
        d.0
    }
}
impl From<ProjectivePoint> for AffinePoint {
    fn from(d: ProjectivePoint) -> Self {
        AffinePoint(d.0)
    }
}
impl ProjectivePoint {
    pub fn to_affine(&self) -> Dlog {
        self.0
    }
    pub fn identity() -> Self {
        ProjectivePoint(Dlog(symcore::zero()))
    }
    pub fn generator() -> Self {
        ProjectivePoint(AffinePoint::generator().0)
    }
}
impl multiexp::MxGroup for ProjectivePoint {
    type Scalar = Scalar;
    fn mx_zero() -> Self {
        ProjectivePoint::identity()
    }
    fn mx_add(self, o: Self) -> Self {
        ProjectivePoint(Dlog(symcore::add(self.0 .0, o.0 .0)))
    }
    fn mx_mul(self, s: Scalar) -> Self {
        ProjectivePoint(Dlog(symcore::mul(self.0 .0, s.0)))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AffinePoint(pub Dlog);
macro_rules! group_ops {
    ($t:ty, $c:expr, $g:expr) => {
        impl Add<$t> for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                $c(symcore::add($g(&self), $g(&o)))
            }
        }
        impl<'a> Add<&'a $t> for $t {
            type Output = $t;
            fn add(self, o: &'a $t) -> $t {
                self + *o
            }
        }
        impl Sub<$t> for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                $c(symcore::sub($g(&self), $g(&o)))
            }
        }
        impl<'a> Sub<&'a $t> for $t {
            type Output = $t;
            fn sub(self, o: &'a $t) -> $t {
                self - *o
            }
        }
        impl AddAssign<$t> for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o;
            }
        }
        impl<'a> AddAssign<&'a $t> for $t {
            fn add_assign(&mut self, o: &'a $t) {
                *self = *self + *o;
            }
        }
        impl SubAssign<$t> for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o;
            }
        }
        impl<'a> SubAssign<&'a $t> for $t {
            fn sub_assign(&mut self, o: &'a $t) {
                *self = *self - *o;
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $c(symcore::neg($g(&self)))
            }
        }
        impl Mul<Scalar> for $t {
            type Output = $t;
            fn mul(self, s: Scalar) -> $t {
                $c(symcore::mul($g(&self), s.0))
            }
        }
        impl<'a> Mul<Scalar> for &'a $t {
            type Output = $t;
            fn mul(self, s: Scalar) -> $t {
                *self * s
            }
        }
        impl<'a> Mul<&'a Scalar> for $t {
            type Output = $t;
            fn mul(self, s: &'a Scalar) -> $t {
                self * *s
            }
        }
        impl MulAssign<Scalar> for $t {
            fn mul_assign(&mut self, s: Scalar) {
                *self = *self * s;
            }
        }
        impl<'a> MulAssign<&'a Scalar> for $t {
            fn mul_assign(&mut self, s: &'a Scalar) {
                *self = *self * *s;
            }
        }
        impl Sum for $t {
            fn sum<I: Iterator<Item = $t>>(it: I) -> $t {
                it.fold($c(symcore::zero()), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $t> for $t {
            fn sum<I: Iterator<Item = &'a $t>>(it: I) -> $t {
                it.fold($c(symcore::zero()), |a, b| a + *b)
            }
        }
        impl Default for $t {
            fn default() -> $t {
                $c(symcore::zero())
            }
        }
    };
}
group_ops!(AffinePoint, |i| AffinePoint(Dlog(i)), |p: &AffinePoint| p.0 .0);
group_ops!(ProjectivePoint, |i| ProjectivePoint(Dlog(i)), |p: &ProjectivePoint| p.0 .0);
impl ConstantTimeEq for AffinePoint {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConstantTimeEq for ProjectivePoint {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl AffinePoint {
    pub fn identity() -> Self {
        AffinePoint(Dlog(symcore::zero()))
    }
    pub fn generator() -> Self {
        AffinePoint(Dlog(symcore::oracle("gen", b"base point")))
    }
    pub fn double(&self) -> Self {
        *self + *self
    }
    pub fn is_identity(&self) -> Choice {
        Choice::from((*self == AffinePoint::identity()) as u8)
    }
    pub fn compress(&self) -> EncodedPoint {
        let c = symcore::canon(self.0 .0);
        let mut b = [0u8; 33];
        b[0] = 2;
        b[1..].copy_from_slice(&symcore::to_le(&symcore::val(c)));
        EncodedPoint { b, id: c }
    }
    pub fn decompress(e: EncodedPoint) -> CtOption<Self> {
        let ok = e.b[0] == 2 || e.b[0] == 3;
        CtOption::new(AffinePoint(Dlog(e.id)), Choice::from(ok as u8))
    }
    pub fn from_uniform_bytes(bytes: &[u8; 128]) -> Self {
        AffinePoint(Dlog(symcore::oracle("G", bytes)))
    }
}
/// the encoding of a point; the wire form carries the value its discrete logarithm has at this assignment
#[derive(Clone, Copy, Debug)]
pub struct EncodedPoint {
    b: [u8; 33],
    id: Id,
}
impl PartialEq for EncodedPoint {
    fn eq(&self, o: &Self) -> bool {
        if self.b[0] != o.b[0] {
            return false;
        }
        symcore::decide_eq(self.id, o.id)
    }
}
impl Eq for EncodedPoint {}
impl EncodedPoint {
    pub fn as_bytes(&self) -> &[u8] {
        &self.b
    }
    pub fn to_bytes(&self) -> Box<[u8]> {
        self.b.to_vec().into_boxed_slice()
    }
    pub fn len(&self) -> usize {
        33
    }
    pub fn from_bytes(b: impl AsRef<[u8]>) -> Result<Self, &'static str> {
        let b = b.as_ref();
        if b.len() != 33 || (b[0] != 2 && b[0] != 5) {
            return Err("encoding");
        }
        let mut a = [0u8; 33];
        a.copy_from_slice(b);
        Ok(EncodedPoint { b: a, id: symcore::lookup(&symcore::from_le(&b[1..])) })
    }
    /// an encoding that is not a point of the curve
    pub fn bad() -> Self {
        let mut b = [0u8; 33];
        b[0] = 5;
        EncodedPoint { b, id: symcore::zero() }
    }
    pub fn of(id: Id) -> Self {
        AffinePoint(Dlog(id)).compress()
    }
    pub fn id(&self) -> Id {
        self.id
    }
}
impl AsRef<[u8]> for EncodedPoint {
    fn as_ref(&self) -> &[u8] {
        &self.b
    }
}
impl Serialize for EncodedPoint {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            return s.serialize_str(&format!("#p{}{}", if self.b[0] == 2 { "" } else { "x" }, self.id.0));
        }
        let v: Vec<u8> = self.b.to_vec();
        v.serialize(s)
    }
}
impl<'de> Deserialize<'de> for EncodedPoint {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if d.is_human_readable() {
            let t = String::deserialize(d)?;
            return match t.strip_prefix("#p") {
                Some("x") => Ok(EncodedPoint::bad()),
                Some(n) => Ok(EncodedPoint::of(Id(n.parse().unwrap()))),
                None => Err(serde::de::Error::custom("not a point")),
            };
        }
        let v = Vec::<u8>::deserialize(d)?;
        EncodedPoint::from_bytes(&v).map_err(serde::de::Error::custom)
    }
}
