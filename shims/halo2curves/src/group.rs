use crate::ff::{CtOption, Choice, PrimeField};
use core::fmt::Debug;
use core::iter::Sum;
use core::ops::*;
use rand_core::RngCore;

pub trait Group: Clone + Copy + Debug + Eq + Sized + Send + Sync + 'static + Sum + for<'a> Sum<&'a Self> + Neg<Output = Self>
    + Add<Output = Self> + Sub<Output = Self> + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + AddAssign + SubAssign + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + Mul<Self::Scalar, Output = Self> + for<'a> Mul<&'a Self::Scalar, Output = Self>
    + MulAssign<Self::Scalar> + for<'a> MulAssign<&'a Self::Scalar>
{
    type Scalar: PrimeField;
    fn random(rng: impl RngCore) -> Self;
    fn identity() -> Self;
    fn generator() -> Self;
    fn is_identity(&self) -> Choice;
    fn double(&self) -> Self;
}
pub trait GroupEncoding: Sized {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_bytes(bytes: &Self::Repr) -> CtOption<Self>;
    fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self>;
    fn to_bytes(&self) -> Self::Repr;
}
pub trait UncompressedEncoding: Sized {
    type Uncompressed: Copy + Default + Send + Sync + AsRef<[u8]> + AsMut<[u8]>;
    fn from_uncompressed(bytes: &Self::Uncompressed) -> CtOption<Self>;
    fn from_uncompressed_unchecked(bytes: &Self::Uncompressed) -> CtOption<Self>;
    fn to_uncompressed(&self) -> Self::Uncompressed;
}
pub trait Curve: Group {
    type AffineRepr;
    fn batch_normalize(p: &[Self], q: &mut [Self::AffineRepr]);
    fn to_affine(&self) -> Self::AffineRepr;
}
pub mod prime {
    use super::*;
    pub trait PrimeGroup: Group + GroupEncoding {}
    pub trait PrimeCurve: Curve<AffineRepr = <Self as PrimeCurve>::Affine> + PrimeGroup {
        type Affine: PrimeCurveAffine<Curve = Self, Scalar = Self::Scalar> + Mul<Self::Scalar, Output = Self> + for<'r> Mul<&'r Self::Scalar, Output = Self>;
    }
    pub trait PrimeCurveAffine: GroupEncoding + Copy + Clone + Sized + Send + Sync + Debug + PartialEq + Eq + 'static + Neg<Output = Self>
        + Mul<<Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve>
        + for<'r> Mul<&'r <Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve>
    {
        type Scalar: PrimeField;
        type Curve: PrimeCurve<Affine = Self, Scalar = Self::Scalar>;
        fn generator() -> Self;
        fn identity() -> Self;
        fn is_identity(&self) -> Choice;
        fn to_curve(&self) -> Self::Curve;
    }
}
