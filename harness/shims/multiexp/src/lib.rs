//! sum of scalar * point
pub trait MxGroup: Copy {
    type Scalar: Copy;
    fn mx_zero() -> Self;
    fn mx_add(self, o: Self) -> Self;
    fn mx_mul(self, s: Self::Scalar) -> Self;
}
pub fn multiexp<G: MxGroup>(pairs: &[(G::Scalar, G)]) -> G {
    let mut acc = G::mx_zero();
    for (s, p) in pairs {
        acc = acc.mx_add(p.mx_mul(*s));
    }
    acc
}
pub fn multiexp_vartime<G: MxGroup>(pairs: &[(G::Scalar, G)]) -> G {
    multiexp(pairs)
}
