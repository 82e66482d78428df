//! Stand-in for the part of `num-bigint` the output extractor uses; numbers up to 256 bits.
use ethnum::U256;
use num_traits::{ToPrimitive, Zero};
use std::fmt;
use std::ops::{Add, Rem, Shr, Sub};
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct BigUint(U256);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Sign { Minus, NoSign, Plus }
#[derive(Clone, PartialEq, Eq)]
pub struct BigInt(Sign, BigUint);
impl BigUint {
    pub const ZERO: BigUint = BigUint(U256::ZERO);
    pub fn from_bytes_le(b: &[u8]) -> Self { assert!(b.iter().skip(32).all(|x| *x == 0)); let mut a = [0u8; 32]; let n = b.len().min(32); a[..n].copy_from_slice(&b[..n]); BigUint(U256::from_le_bytes(a)) }
    pub fn bits(&self) -> u64 { 256 - self.0.leading_zeros() as u64 }
}
macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for BigUint { fn from(x: $t) -> Self { BigUint(U256::from(x)) } })* } }
from!(u32, u64, u128);
impl Zero for BigUint { fn zero() -> Self { Self::ZERO } fn is_zero(&self) -> bool { self.0 == U256::ZERO } }
impl Add for BigUint { type Output = BigUint; fn add(self, o: BigUint) -> BigUint { BigUint(self.0.checked_add(o.0).expect("stand-in: over 256 bits")) } }
macro_rules! ops { ($($a:ty, $b:ty);*) => { $(
    impl Sub<$b> for $a { type Output = BigUint; fn sub(self, o: $b) -> BigUint { assert!(self.0 >= o.0, "Cannot subtract b from a because b is larger than a."); BigUint(self.0 - o.0) } }
    impl Rem<$b> for $a { type Output = BigUint; fn rem(self, o: $b) -> BigUint { assert!(o.0 != U256::ZERO, "attempt to divide by zero"); BigUint(self.0 % o.0) } }
)* } }
ops!(BigUint, BigUint; &BigUint, &BigUint; &BigUint, BigUint; BigUint, &BigUint);
impl Shr<i32> for &BigUint { type Output = BigUint; fn shr(self, n: i32) -> BigUint { BigUint(self.0 >> (n as u32)) } }
impl ToPrimitive for BigUint {
    fn to_u64(&self) -> Option<u64> { if self.bits() <= 64 { Some(self.0.as_u64()) } else { None } }
    fn to_i64(&self) -> Option<i64> { self.to_u64().and_then(|x| i64::try_from(x).ok()) }
    fn to_f64(&self) -> Option<f64> {
        let n = self.bits();
        if n <= 64 { return Some(self.0.as_u64() as f64) }
        let k = (n - 64) as u32;
        let mut top = (self.0 >> k).as_u64();
        if (U256::from(top) << k) != self.0 { top |= 1 }
        Some(top as f64 * 2f64.powi(k as i32))
    }
}
impl BigInt { pub fn from_biguint(s: Sign, u: BigUint) -> Self { if u.is_zero() { BigInt(Sign::NoSign, u) } else { BigInt(s, u) } } pub fn sign(&self) -> Sign { self.0 } pub fn magnitude(&self) -> &BigUint { &self.1 } }
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> { let m = self.1.to_u64()?; if self.0 == Sign::Minus { if m <= 1 << 63 { Some((m as i64).wrapping_neg()) } else { None } } else { i64::try_from(m).ok() } }
    fn to_u64(&self) -> Option<u64> { if self.0 == Sign::Minus { None } else { self.1.to_u64() } }
    fn to_f64(&self) -> Option<f64> { self.1.to_f64().map(|x| if self.0 == Sign::Minus { -x } else { x }) }
}
impl fmt::Debug for BigUint { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl fmt::Display for BigUint { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl fmt::Debug for BigInt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}{}", if self.0 == Sign::Minus { "-" } else { "" }, self.1) } }
impl fmt::Display for BigInt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(self, f) } }
