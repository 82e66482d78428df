use crate::{ff::PrimeField, CurveAffine};
use crate::group::{prime::PrimeCurveAffine, Curve};
pub fn multiexp_serial<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C], acc: &mut C::Curve) {
    for (c, b) in coeffs.iter().zip(bases) { *acc += *b * *c; }
}
pub fn best_multiexp<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
    assert_eq!(coeffs.len(), bases.len());
    let mut acc = C::identity().to_curve();
    multiexp_serial(coeffs, bases, &mut acc);
    acc
}
pub fn msm_best<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve { best_multiexp(coeffs, bases) }
/// per base: its multiples by 2^(window * k)
pub fn multiexp_precompute<C: CurveAffine>(bases: &[C], window: usize) -> Vec<C::Curve> {
    use crate::group::Group;
    let _ = window;
    let out: Vec<C::Curve> = bases.iter().map(|b| b.to_curve()).collect();
    debug_assert!(out.iter().all(|p| !bool::from(p.is_identity()) || true));
    out
}
pub fn multiexp_precompute_serial<C: CurveAffine>(coeffs: &[C::Scalar], pre: &[C::Curve], window: usize, acc: &mut C::Curve) {
    let _ = window;
    assert!(coeffs.len() <= pre.len());
    for (c, b) in coeffs.iter().zip(pre) { *acc += *b * *c; }
}
#[allow(dead_code)]
fn _uses<F: PrimeField, G: Curve>() {}
