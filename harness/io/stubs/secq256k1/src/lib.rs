//! Stand-in for the curve crate: field elements are their canonical 32 bytes (little-endian integer below PRIME);
//! the readers under test only move them, so no arithmetic is provided.
use core::fmt;
use ff::{Field, PrimeField};
use rand_core::RngCore;
use std::iter::Sum;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// secp256k1 base field prime = order of secq256k1, little-endian words
pub const PRIME: [u64; 4] = [0xfffffffefffffc2f, !0, !0, !0];

pub type FieldBytes = [u8; 32];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Scalar(pub [u8; 32]);
pub fn canonical(b: &[u8; 32]) -> bool {
    let mut borrow = false;
    let mut i = 0;
    while i < 4 {
        let w = u64::from_le_bytes([b[8 * i], b[8 * i + 1], b[8 * i + 2], b[8 * i + 3], b[8 * i + 4], b[8 * i + 5], b[8 * i + 6], b[8 * i + 7]]);
        let (x, o1) = w.overflowing_sub(PRIME[i]);
        let (_, o2) = x.overflowing_sub(borrow as u64);
        borrow = o1 | o2;
        i += 1;
    }
    borrow
}
impl ConditionallySelectable for Scalar {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        let mut r = [0u8; 32];
        for i in 0..32 {
            r[i] = u8::conditional_select(&a.0[i], &b.0[i], c);
        }
        Scalar(r)
    }
}
impl ConstantTimeEq for Scalar {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0[..].ct_eq(&o.0[..])
    }
}
macro_rules! ops {
    ($t:ident: $($tr:ident $f:ident $tra:ident $fa:ident),*) => {$(
        impl $tr for $t { type Output = $t; fn $f(self, _o: $t) -> $t { unimplemented!() } }
        impl<'a> $tr<&'a $t> for $t { type Output = $t; fn $f(self, _o: &'a $t) -> $t { unimplemented!() } }
        impl $tra for $t { fn $fa(&mut self, _o: $t) { unimplemented!() } }
        impl<'a> $tra<&'a $t> for $t { fn $fa(&mut self, _o: &'a $t) { unimplemented!() } }
    )*};
}
ops!(Scalar: Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign);
impl Neg for Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        unimplemented!()
    }
}
impl From<u64> for Scalar {
    fn from(v: u64) -> Scalar {
        let mut r = [0u8; 32];
        r[..8].copy_from_slice(&v.to_le_bytes());
        Scalar(r)
    }
}
impl Field for Scalar {
    fn random(_: impl RngCore) -> Self {
        unimplemented!()
    }
    fn zero() -> Self {
        Scalar([0; 32])
    }
    fn one() -> Self {
        Scalar::from(1)
    }
    fn square(&self) -> Self {
        unimplemented!()
    }
    fn double(&self) -> Self {
        unimplemented!()
    }
    fn invert(&self) -> CtOption<Self> {
        unimplemented!()
    }
    fn sqrt(&self) -> CtOption<Self> {
        unimplemented!()
    }
}
impl PrimeField for Scalar {
    type Repr = [u8; 32];
    const NUM_BITS: u32 = 256;
    const CAPACITY: u32 = 255;
    const S: u32 = 1;
    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        CtOption::new(Scalar(r), Choice::from(canonical(&r) as u8))
    }
    fn to_repr(&self) -> [u8; 32] {
        self.0
    }
    fn is_odd(&self) -> Choice {
        Choice::from(self.0[0] & 1)
    }
    fn multiplicative_generator() -> Self {
        unimplemented!()
    }
    fn root_of_unity() -> Self {
        unimplemented!()
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct AffinePoint;
impl fmt::Debug for AffinePoint {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
ops!(AffinePoint: Add add AddAssign add_assign, Sub sub SubAssign sub_assign);
impl Neg for AffinePoint {
    type Output = AffinePoint;
    fn neg(self) -> AffinePoint {
        unimplemented!()
    }
}
impl Mul<Scalar> for AffinePoint {
    type Output = AffinePoint;
    fn mul(self, _: Scalar) -> AffinePoint {
        unimplemented!()
    }
}
impl<'a> Mul<&'a Scalar> for AffinePoint {
    type Output = AffinePoint;
    fn mul(self, _: &'a Scalar) -> AffinePoint {
        unimplemented!()
    }
}
impl MulAssign<Scalar> for AffinePoint {
    fn mul_assign(&mut self, _: Scalar) {
        unimplemented!()
    }
}
impl<'a> MulAssign<&'a Scalar> for AffinePoint {
    fn mul_assign(&mut self, _: &'a Scalar) {
        unimplemented!()
    }
}
impl Sum for AffinePoint {
    fn sum<I: Iterator<Item = Self>>(_: I) -> Self {
        unimplemented!()
    }
}
impl<'a> Sum<&'a AffinePoint> for AffinePoint {
    fn sum<I: Iterator<Item = &'a AffinePoint>>(_: I) -> Self {
        unimplemented!()
    }
}
impl group::Group for AffinePoint {
    type Scalar = Scalar;
    fn random(_: impl RngCore) -> Self {
        unimplemented!()
    }
    fn identity() -> Self {
        unimplemented!()
    }
    fn generator() -> Self {
        unimplemented!()
    }
    fn is_identity(&self) -> Choice {
        unimplemented!()
    }
    fn double(&self) -> Self {
        unimplemented!()
    }
}
pub mod affine {
    pub use super::AffinePoint;
    pub use group::Group;
}
pub mod field {
    pub trait BaseField {}
}
