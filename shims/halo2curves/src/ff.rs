use core::fmt::Debug;
use core::iter::{Product, Sum};
use core::ops::*;
use rand_core::RngCore;
pub use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait Field: Sized + Eq + Copy + Clone + Default + Send + Sync + Debug + 'static + ConditionallySelectable + ConstantTimeEq
    + Neg<Output = Self> + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Sum + Product
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self> + AddAssign + SubAssign + MulAssign
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;
    fn random(rng: impl RngCore) -> Self;
    fn is_zero(&self) -> Choice { self.ct_eq(&Self::ZERO) }
    fn is_zero_vartime(&self) -> bool { self.is_zero().into() }
    fn square(&self) -> Self;
    fn cube(&self) -> Self { self.square() * self }
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self { self.pow_vartime(exp) }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                if ((*e >> i) & 1) == 1 { res *= self; }
            }
        }
        res
    }
}

pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_repr(repr: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> { Self::from_repr(repr).into() }
    fn to_repr(&self) -> Self::Repr;
    fn from_u128(v: u128) -> Self {
        let (hi, lo) = ((v >> 64) as u64, v as u64);
        let mut r = Self::from(hi);
        for _ in 0..64 { r = r.double(); }
        r + Self::from(lo)
    }
    fn is_odd(&self) -> Choice;
    fn is_even(&self) -> Choice { !self.is_odd() }
    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

pub trait FromUniformBytes<const N: usize>: PrimeField { fn from_uniform_bytes(bytes: &[u8; N]) -> Self; }
pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField { const ZETA: Self; }
