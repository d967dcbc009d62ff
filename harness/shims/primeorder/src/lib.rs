//! Stand-in for the primeorder crate (a git dependency that is not available here): the types and traits secq256k1 uses.
//! Points are kept in affine form; the group law is the textbook one.  With the feature `record`, group operations are
//! only written down (the coordinates are then not numbers).
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
pub use elliptic_curve::{self, Field, FieldBytes, PrimeCurve, PrimeField};
use elliptic_curve::group;
use elliptic_curve::sec1::{self, EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint};
use elliptic_curve::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use elliptic_curve::{ops::LinearCombination, AffineArithmetic, AffineXCoordinate, Curve, FieldSize, ProjectiveArithmetic, ScalarArithmetic};
use elliptic_curve::zeroize::DefaultIsZeroes;
use elliptic_curve::rand_core::RngCore;

pub trait PrimeCurveParams:
    PrimeCurve + Curve + ScalarArithmetic + AffineArithmetic<AffinePoint = AffinePoint<Self>> + ProjectiveArithmetic<ProjectivePoint = ProjectivePoint<Self>>
{
    type FieldElement: PrimeField<Repr = FieldBytes<Self>>;
    const ZERO: Self::FieldElement;
    const ONE: Self::FieldElement;
    const EQUATION_A: Self::FieldElement;
    const EQUATION_B: Self::FieldElement;
    const GENERATOR: (Self::FieldElement, Self::FieldElement);
}

macro_rules! point {
    ($P:ident) => {
        #[derive(Clone, Copy, Debug)]
        #[repr(C)]
        pub struct $P<C: PrimeCurveParams> {
            pub x: C::FieldElement,
            pub y: C::FieldElement,
            pub infinity: u8,
        }
        impl<C: PrimeCurveParams> $P<C> {
            pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ZERO, infinity: 1 };
            pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, infinity: 0 };
            pub fn is_identity(&self) -> Choice {
                self.infinity.into()
            }
        }
        impl<C: PrimeCurveParams> Default for $P<C> {
            fn default() -> Self {
                Self::IDENTITY
            }
        }
        impl<C: PrimeCurveParams> DefaultIsZeroes for $P<C> {}
        impl<C: PrimeCurveParams> ConditionallySelectable for $P<C> {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                Self {
                    x: C::FieldElement::conditional_select(&a.x, &b.x, c),
                    y: C::FieldElement::conditional_select(&a.y, &b.y, c),
                    infinity: u8::conditional_select(&a.infinity, &b.infinity, c),
                }
            }
        }
        impl<C: PrimeCurveParams> ConstantTimeEq for $P<C> {
            fn ct_eq(&self, o: &Self) -> Choice {
                self.x.ct_eq(&o.x) & self.y.ct_eq(&o.y) & self.infinity.ct_eq(&o.infinity)
            }
        }
        impl<C: PrimeCurveParams> PartialEq for $P<C> {
            fn eq(&self, o: &Self) -> bool {
                self.ct_eq(o).into()
            }
        }
        impl<C: PrimeCurveParams> Eq for $P<C> {}
        impl<C: PrimeCurveParams> Neg for $P<C> {
            type Output = Self;
            fn neg(self) -> Self {
                Self { y: -self.y, ..self }
            }
        }
    };
}
point!(AffinePoint);
point!(ProjectivePoint);

impl<C: PrimeCurveParams> From<AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: AffinePoint<C>) -> Self {
        Self { x: p.x, y: p.y, infinity: p.infinity }
    }
}
impl<C: PrimeCurveParams> From<&AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: &AffinePoint<C>) -> Self {
        (*p).into()
    }
}
impl<C: PrimeCurveParams> From<ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: ProjectivePoint<C>) -> Self {
        Self { x: p.x, y: p.y, infinity: p.infinity }
    }
}
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: &ProjectivePoint<C>) -> Self {
        (*p).into()
    }
}

#[cfg(not(feature = "record"))]
fn addp<C: PrimeCurveParams>(a: &ProjectivePoint<C>, b: &ProjectivePoint<C>) -> ProjectivePoint<C> {
    if a.infinity == 1 {
        return *b;
    }
    if b.infinity == 1 {
        return *a;
    }
    let l = if a.x == b.x {
        if a.y != b.y || bool::from(a.y.is_zero()) {
            return ProjectivePoint::IDENTITY;
        }
        let xx = a.x * a.x;
        (xx + xx + xx + C::EQUATION_A) * (a.y + a.y).invert().unwrap()
    } else {
        (b.y - a.y) * (b.x - a.x).invert().unwrap()
    };
    let x = l * l - a.x - b.x;
    ProjectivePoint { x, y: l * (a.x - x) - a.y, infinity: 0 }
}
#[cfg(not(feature = "record"))]
fn mulp<C: PrimeCurveParams>(a: &ProjectivePoint<C>, k: &C::Scalar) -> ProjectivePoint<C> {
    let r = k.to_repr();
    let mut o = ProjectivePoint::IDENTITY;
    for b in r.iter() {
        for i in (0..8).rev() {
            o = addp(&o, &o);
            if b >> i & 1 == 1 {
                o = addp(&o, a);
            }
        }
    }
    o
}
#[cfg(feature = "record")]
fn note<C: PrimeCurveParams>(t: &str) -> ProjectivePoint<C> {
    println!("POINT {}", t);
    ProjectivePoint::IDENTITY
}
#[cfg(feature = "record")]
fn show<C: PrimeCurveParams>(p: &ProjectivePoint<C>) -> String {
    format!("{:?},{:?},{}", p.x, p.y, p.infinity)
}
#[cfg(feature = "record")]
fn addp<C: PrimeCurveParams>(a: &ProjectivePoint<C>, b: &ProjectivePoint<C>) -> ProjectivePoint<C> {
    note(&format!("add {} {}", show(a), show(b)))
}
#[cfg(feature = "record")]
fn mulp<C: PrimeCurveParams>(a: &ProjectivePoint<C>, k: &C::Scalar) -> ProjectivePoint<C> {
    note(&format!("mul {} {:?}", show(a), k.to_repr().as_slice()))
}

macro_rules! binop {
    ($T:ident $f:ident $TA:ident $fa:ident |$a:ident, $b:ident| $e:expr; $($B:ty),*) => {$(
        impl<C: PrimeCurveParams> $T<$B> for ProjectivePoint<C> {
            type Output = ProjectivePoint<C>;
            fn $f(self, o: $B) -> ProjectivePoint<C> {
                let ($a, $b) = (self, ProjectivePoint::from(o));
                $e
            }
        }
        impl<C: PrimeCurveParams> $TA<$B> for ProjectivePoint<C> {
            fn $fa(&mut self, o: $B) {
                *self = $T::$f(*self, o);
            }
        }
    )*};
}
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for ProjectivePoint<C> {
    fn from(p: &ProjectivePoint<C>) -> Self {
        *p
    }
}
binop!(Add add AddAssign add_assign |a, b| addp(&a, &b); ProjectivePoint<C>, &ProjectivePoint<C>, AffinePoint<C>, &AffinePoint<C>);
binop!(Sub sub SubAssign sub_assign |a, b| addp(&a, &-b); ProjectivePoint<C>, &ProjectivePoint<C>, AffinePoint<C>, &AffinePoint<C>);

// scalars are taken by value or by reference: one generic implementation as in the real crate
impl<C: PrimeCurveParams, S: core::borrow::Borrow<C::Scalar>> Mul<S> for AffinePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, k: S) -> ProjectivePoint<C> {
        mulp(&self.into(), k.borrow())
    }
}
impl<C: PrimeCurveParams, S: core::borrow::Borrow<C::Scalar>> Mul<S> for ProjectivePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, k: S) -> ProjectivePoint<C> {
        mulp(&self, k.borrow())
    }
}
impl<C: PrimeCurveParams, S: core::borrow::Borrow<C::Scalar>> MulAssign<S> for ProjectivePoint<C> {
    fn mul_assign(&mut self, k: S) {
        *self = mulp(self, k.borrow());
    }
}
impl<C: PrimeCurveParams> Sum for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::IDENTITY, |a, b| a + b)
    }
}
impl<'a, C: PrimeCurveParams> Sum<&'a ProjectivePoint<C>> for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Self::IDENTITY, |a, b| a + b)
    }
}
impl<C: PrimeCurveParams> group::Group for ProjectivePoint<C> {
    type Scalar = C::Scalar;
    fn random(mut rng: impl RngCore) -> Self {
        Self::GENERATOR * C::Scalar::random(&mut rng)
    }
    fn identity() -> Self {
        Self::IDENTITY
    }
    fn generator() -> Self {
        Self::GENERATOR
    }
    fn is_identity(&self) -> Choice {
        self.infinity.into()
    }
    fn double(&self) -> Self {
        addp(self, self)
    }
}
impl<C: PrimeCurveParams> group::Curve for ProjectivePoint<C> {
    type AffineRepr = AffinePoint<C>;
    fn to_affine(&self) -> AffinePoint<C> {
        self.into()
    }
}
impl<C: PrimeCurveParams> LinearCombination for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> AffineXCoordinate<C> for AffinePoint<C> {
    fn x(&self) -> FieldBytes<C> {
        self.x.to_repr()
    }
}
impl<C: PrimeCurveParams> FromEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn from_encoded_point(p: &EncodedPoint<C>) -> CtOption<Self> {
        let none = CtOption::new(Self::IDENTITY, 0.into());
        #[cfg(feature = "record")]
        println!("POINT decode {:?}", p.as_bytes());
        match p.coordinates() {
            sec1::Coordinates::Identity => CtOption::new(Self::IDENTITY, 1.into()),
            sec1::Coordinates::Compact { .. } => none,
            sec1::Coordinates::Compressed { x, y_is_odd } => {
                let x: Option<C::FieldElement> = C::FieldElement::from_repr(x.clone()).into();
                let Some(x) = x else { return none };
                let y: Option<C::FieldElement> = (x * x * x + C::EQUATION_A * x + C::EQUATION_B).sqrt().into();
                let Some(y) = y else { return none };
                let y = if bool::from(y.is_odd()) == y_is_odd { y } else { -y };
                CtOption::new(Self { x, y, infinity: 0 }, 1.into())
            }
            sec1::Coordinates::Uncompressed { x, y } => {
                let x: Option<C::FieldElement> = C::FieldElement::from_repr(x.clone()).into();
                let y: Option<C::FieldElement> = C::FieldElement::from_repr(y.clone()).into();
                let (Some(x), Some(y)) = (x, y) else { return none };
                #[cfg(feature = "record")]
                let ok = true;
                #[cfg(not(feature = "record"))]
                let ok = y * y == x * x * x + C::EQUATION_A * x + C::EQUATION_B;
                CtOption::new(Self { x, y, infinity: 0 }, (ok as u8).into())
            }
        }
    }
}
impl<C: PrimeCurveParams> ToEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<C> {
        if self.infinity == 1 {
            return EncodedPoint::<C>::identity();
        }
        EncodedPoint::<C>::from_affine_coordinates(&self.x.to_repr(), &self.y.to_repr(), compress)
    }
}
