use crate::ff::{Choice, CtOption, PrimeField};
use crate::group::{prime::{PrimeCurve, PrimeCurveAffine}, Group, GroupEncoding};
use core::fmt::Debug;
use core::ops::*;

pub trait CurveExt: PrimeCurve<Affine = <Self as CurveExt>::AffineExt> + Group<Scalar = <Self as CurveExt>::ScalarExt> + Default + From<<Self as PrimeCurve>::Affine> {
    type ScalarExt: PrimeField;
    type Base: PrimeField;
    type AffineExt: CurveAffine<CurveExt = Self, ScalarExt = <Self as CurveExt>::ScalarExt> + Mul<Self::ScalarExt, Output = Self>;
    const CURVE_ID: &'static str;
}
pub trait CurveAffine: PrimeCurveAffine<Scalar = <Self as CurveAffine>::ScalarExt, Curve = <Self as CurveAffine>::CurveExt>
    + Default + Add<Output = <Self as PrimeCurveAffine>::Curve> + Sub<Output = <Self as PrimeCurveAffine>::Curve> + PartialEq
    + subtle::ConditionallySelectable + subtle::ConstantTimeEq + From<<Self as PrimeCurveAffine>::Curve> + GroupEncoding + Debug
{
    type ScalarExt: PrimeField;
    type Base: PrimeField;
    type CurveExt: CurveExt<AffineExt = Self, ScalarExt = <Self as CurveAffine>::ScalarExt>;
    fn coordinates(&self) -> CtOption<Coordinates<Self>>;
    fn from_xy(x: Self::Base, y: Self::Base) -> CtOption<Self>;
    fn is_on_curve(&self) -> Choice;
}
#[derive(Debug, Clone, Copy)]
pub struct Coordinates<C: CurveAffine> { pub(crate) x: C::Base, pub(crate) y: C::Base }
impl<C: CurveAffine> Coordinates<C> {
    pub fn x(&self) -> &C::Base { &self.x }
    pub fn y(&self) -> &C::Base { &self.y }
}
impl<C: CurveAffine> subtle::ConditionallySelectable for Coordinates<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { Coordinates { x: C::Base::conditional_select(&a.x, &b.x, c), y: C::Base::conditional_select(&a.y, &b.y, c) } }
}
