use crate::ff::*;
use crate::group::{prime::*, *};
use crate::pairing::*;
use crate::{Coordinates, CurveAffine, CurveExt};
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::*;
use rand_core::RngCore;

const M: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
const INV: u64 = 0xc2e1f593efffffff; // -M^-1 mod 2^64
const R: [u64; 4] = pow2(256);
const R2: [u64; 4] = pow2(512);
const R3: [u64; 4] = pow2(768);

const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) { let t = a as u128 + b as u128 + c as u128; (t as u64, (t >> 64) as u64) }
const fn sbb(a: u64, b: u64, w: u64) -> (u64, u64) { let t = (a as u128).wrapping_sub(b as u128 + w as u128); (t as u64, ((t >> 64) as u64) & 1) }
const fn mac(a: u64, b: u64, c: u64, k: u64) -> (u64, u64) { let t = a as u128 + b as u128 * c as u128 + k as u128; (t as u64, (t >> 64) as u64) }
const fn reduce(a: [u64; 4], top: u64) -> [u64; 4] {
    let (r0, b) = sbb(a[0], M[0], 0); let (r1, b) = sbb(a[1], M[1], b); let (r2, b) = sbb(a[2], M[2], b); let (r3, b) = sbb(a[3], M[3], b);
    if b > top { a } else { [r0, r1, r2, r3] }
}
const fn add4(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    let (r0, c) = adc(a[0], b[0], 0); let (r1, c) = adc(a[1], b[1], c); let (r2, c) = adc(a[2], b[2], c); let (r3, c) = adc(a[3], b[3], c);
    reduce([r0, r1, r2, r3], c)
}
const fn sub4(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    let (r0, w) = sbb(a[0], b[0], 0); let (r1, w) = sbb(a[1], b[1], w); let (r2, w) = sbb(a[2], b[2], w); let (r3, w) = sbb(a[3], b[3], w);
    if w == 0 { return [r0, r1, r2, r3]; }
    let (r0, c) = adc(r0, M[0], 0); let (r1, c) = adc(r1, M[1], c); let (r2, c) = adc(r2, M[2], c); let (r3, _) = adc(r3, M[3], c);
    [r0, r1, r2, r3]
}
/// 2^n mod M by doubling
const fn pow2(n: usize) -> [u64; 4] { let mut a = [1, 0, 0, 0]; let mut i = 0; while i < n { a = add4(a, a); i += 1; } a }
const fn mont(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut k = 0; let mut j = 0;
        while j < 4 { let (x, y) = mac(t[j], a[j], b[i], k); t[j] = x; k = y; j += 1; }
        let (x, y) = adc(t[4], k, 0); t[4] = x; t[5] = y;
        let m = t[0].wrapping_mul(INV);
        let (_, y) = mac(t[0], m, M[0], 0); k = y; j = 1;
        while j < 4 { let (x, y) = mac(t[j], m, M[j], k); t[j - 1] = x; k = y; j += 1; }
        let (x, y) = adc(t[4], k, 0); t[3] = x; t[4] = t[5] + y;
        i += 1;
    }
    reduce([t[0], t[1], t[2], t[3]], t[4])
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fr(pub(crate) [u64; 4]);
impl Fr {
    pub const fn zero() -> Self { Fr([0; 4]) }
    pub const fn one() -> Self { Fr(R) }
    pub const fn from_raw(v: [u64; 4]) -> Self { Fr(mont(v, R2)) }
    fn canon(&self) -> [u64; 4] { mont(self.0, [1, 0, 0, 0]) }
    pub fn to_bytes(&self) -> [u8; 32] { let mut o = [0; 32]; for (i, l) in self.canon().iter().enumerate() { o[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes()); } o }
    pub fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        let mut l = [0u64; 4];
        for i in 0..4 { l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
        let ok = l.iter().rev().lt(M.iter().rev());
        CtOption::new(if ok { Fr::from_raw(l) } else { Fr::zero() }, Choice::from(ok as u8))
    }
    pub const fn size() -> usize { 32 }
}
impl fmt::Debug for Fr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let c = self.canon(); write!(f, "0x{:016x}{:016x}{:016x}{:016x}", c[3], c[2], c[1], c[0]) } }
impl fmt::Display for Fr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl PartialOrd for Fr { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Fr { fn cmp(&self, o: &Self) -> core::cmp::Ordering { let (a, b) = (self.canon(), o.canon()); a.iter().rev().cmp(b.iter().rev()) } }
impl From<u64> for Fr { fn from(v: u64) -> Self { Fr::from_raw([v, 0, 0, 0]) } }
impl From<u32> for Fr { fn from(v: u32) -> Self { Fr::from_raw([v as u64, 0, 0, 0]) } }
impl From<bool> for Fr { fn from(v: bool) -> Self { Fr::from_raw([v as u64, 0, 0, 0]) } }
impl From<[u64; 4]> for Fr { fn from(v: [u64; 4]) -> Self { Fr::from_raw(v) } }
impl Neg for Fr { type Output = Fr; fn neg(self) -> Fr { Fr(sub4([0; 4], self.0)) } }
impl Neg for &Fr { type Output = Fr; fn neg(self) -> Fr { -*self } }
macro_rules! op { ($T:ident, $t:ident, $A:ident, $a:ident, $f:expr) => {
    impl $T<Fr> for Fr { type Output = Fr; #[inline] fn $t(self, o: Fr) -> Fr { Fr($f(self.0, o.0)) } }
    impl $T<&Fr> for Fr { type Output = Fr; #[inline] fn $t(self, o: &Fr) -> Fr { Fr($f(self.0, o.0)) } }
    impl $T<Fr> for &Fr { type Output = Fr; #[inline] fn $t(self, o: Fr) -> Fr { Fr($f(self.0, o.0)) } }
    impl $T<&Fr> for &Fr { type Output = Fr; #[inline] fn $t(self, o: &Fr) -> Fr { Fr($f(self.0, o.0)) } }
    impl $A<Fr> for Fr { #[inline] fn $a(&mut self, o: Fr) { self.0 = $f(self.0, o.0) } }
    impl $A<&Fr> for Fr { #[inline] fn $a(&mut self, o: &Fr) { self.0 = $f(self.0, o.0) } }
} }
op!(Add, add, AddAssign, add_assign, add4);
op!(Sub, sub, SubAssign, sub_assign, sub4);
op!(Mul, mul, MulAssign, mul_assign, mont);
impl<T: core::borrow::Borrow<Fr>> Sum<T> for Fr { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Fr::zero(), |a, b| a + b.borrow()) } }
impl<T: core::borrow::Borrow<Fr>> Product<T> for Fr { fn product<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Fr::one(), |a, b| a * b.borrow()) } }
impl ConstantTimeEq for Fr { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.0 == o.0) as u8) } }
impl ConditionallySelectable for Fr { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
impl Field for Fr {
    const ZERO: Self = Fr::zero();
    const ONE: Self = Fr::one();
    fn random(mut rng: impl RngCore) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        <Fr as FromUniformBytes<64>>::from_uniform_bytes(&b)
    }
    fn square(&self) -> Self { *self * *self }
    fn double(&self) -> Self { *self + *self }
    fn invert(&self) -> CtOption<Self> {
        let mut e = M; e[0] -= 2;
        CtOption::new(self.pow_vartime(e), !Field::is_zero(self))
    }
}
impl PrimeField for Fr {
    type Repr = [u8; 32];
    fn from_repr(r: [u8; 32]) -> CtOption<Self> { Fr::from_bytes(&r) }
    fn to_repr(&self) -> [u8; 32] { self.to_bytes() }
    fn is_odd(&self) -> Choice { Choice::from((self.canon()[0] & 1) as u8) }
    const MODULUS: &'static str = "0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
    const NUM_BITS: u32 = 254;
    const CAPACITY: u32 = 253;
    const TWO_INV: Self = Fr::from_raw([0xa1f0fac9f8000001, 0x9419f4243cdcb848, 0xdc2822db40c0ac2e, 0x183227397098d014]);
    const MULTIPLICATIVE_GENERATOR: Self = Fr::from_raw([7, 0, 0, 0]);
    const S: u32 = 28;
    const ROOT_OF_UNITY: Self = Fr::from_raw([0xd34f1ed960c37c9c, 0x3215cf6dd39329c8, 0x98865ea93dd31f74, 0x03ddb9f5166d18b7]);
    const ROOT_OF_UNITY_INV: Self = Fr::from_raw([0x0ed3e50a414e6dba, 0xb22625f59115aba7, 0x1bbe587180f34361, 0x048127174daabc26]);
    const DELTA: Self = Fr::from_raw([0x870e56bbe533e9a2, 0x5b5f898e5e963f25, 0x64ec26aad4c86e71, 0x09226b6e22c6f0ca]);
}
impl FromUniformBytes<64> for Fr {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        let l: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let half = |v: &[u64]| -> [u64; 4] { let mut a: [u64; 4] = v.try_into().unwrap(); while !a.iter().rev().lt(M.iter().rev()) { a = reduce(a, 0); } a };
        Fr(add4(mont(half(&l[..4]), R2), mont(half(&l[4..]), R3)))
    }
}
impl FromUniformBytes<48> for Fr {
    fn from_uniform_bytes(b: &[u8; 48]) -> Self { let mut x = [0u8; 64]; x[..48].copy_from_slice(b); <Fr as FromUniformBytes<64>>::from_uniform_bytes(&x) }
}
impl crate::serde::SerdeObject for Fr {
    fn from_raw_bytes_unchecked(b: &[u8]) -> Self { let mut l = [0u64; 4]; for i in 0..4 { l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); } Fr(l) }
    fn from_raw_bytes(b: &[u8]) -> Option<Self> { if b.len() != 32 { return None; } let v = Self::from_raw_bytes_unchecked(b); v.0.iter().rev().lt(M.iter().rev()).then_some(v) }
    fn to_raw_bytes(&self) -> Vec<u8> { self.0.iter().flat_map(|l| l.to_le_bytes()).collect() }
    fn read_raw_unchecked<Rd: std::io::Read>(r: &mut Rd) -> Self { let mut b = [0u8; 32]; r.read_exact(&mut b).unwrap(); Self::from_raw_bytes_unchecked(&b) }
    fn read_raw<Rd: std::io::Read>(r: &mut Rd) -> std::io::Result<Self> { let mut b = [0u8; 32]; r.read_exact(&mut b)?; Self::from_raw_bytes(&b).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "not a field element")) }
    fn write_raw<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { w.write_all(&self.to_raw_bytes()) }
}
/// stands in for the base field; the ideal group has no coordinates of its own
pub type Fq = Fr;

macro_rules! group { ($G:ident, $A:ident, $n:expr, $tag:expr) => {
    /// logarithm with respect to the generator
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
    pub struct $G(Fr);
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
    pub struct $A(Fr);
    impl fmt::Debug for $G { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, concat!(stringify!($G), "[{:?}]"), self.0) } }
    impl fmt::Debug for $A { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, concat!(stringify!($G), "[{:?}]"), self.0) } }
    impl From<$A> for $G { fn from(a: $A) -> Self { $G(a.0) } }
    impl From<$G> for $A { fn from(a: $G) -> Self { $A(a.0) } }
    impl From<&$A> for $G { fn from(a: &$A) -> Self { $G(a.0) } }
    impl From<&$G> for $A { fn from(a: &$G) -> Self { $A(a.0) } }
    impl Neg for $G { type Output = $G; fn neg(self) -> $G { $G(-self.0) } }
    impl Neg for $A { type Output = $A; fn neg(self) -> $A { $A(-self.0) } }
    group!(@lin $G, $G, $G); group!(@lin $G, $A, $G); group!(@lin $A, $G, $G); group!(@lin $A, $A, $G);
    group!(@asg $G, $G); group!(@asg $G, $A);
    group!(@mul $G, $G); group!(@mul $A, $G);
    impl MulAssign<Fr> for $G { fn mul_assign(&mut self, s: Fr) { self.0 *= s } }
    impl MulAssign<&Fr> for $G { fn mul_assign(&mut self, s: &Fr) { self.0 *= s } }
    impl<T: core::borrow::Borrow<$G>> Sum<T> for $G { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold($G::default(), |a, b| a + *b.borrow()) } }
    impl ConstantTimeEq for $A { fn ct_eq(&self, o: &Self) -> Choice { self.0.ct_eq(&o.0) } }
    impl ConstantTimeEq for $G { fn ct_eq(&self, o: &Self) -> Choice { self.0.ct_eq(&o.0) } }
    impl ConditionallySelectable for $A { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
    impl ConditionallySelectable for $G { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
    impl Group for $G {
        type Scalar = Fr;
        fn random(rng: impl RngCore) -> Self { $G(Fr::random(rng)) }
        fn identity() -> Self { $G(Fr::zero()) }
        fn generator() -> Self { $G(Fr::one()) }
        fn is_identity(&self) -> Choice { Field::is_zero(&self.0) }
        fn double(&self) -> Self { $G(self.0 + self.0) }
    }
    impl Curve for $G {
        type AffineRepr = $A;
        fn batch_normalize(p: &[Self], q: &mut [$A]) { assert_eq!(p.len(), q.len()); for (a, b) in p.iter().zip(q) { *b = $A(a.0); } }
        fn to_affine(&self) -> $A { $A(self.0) }
    }
    impl GroupEncoding for $A {
        type Repr = Enc<$n>;
        fn from_bytes(b: &Enc<$n>) -> CtOption<Self> {
            let pad = b.0[32..].iter().all(|x| *x == 0);
            let f = Fr::from_bytes(b.0[..32].try_into().unwrap());
            let ok = pad && bool::from(f.is_some());
            CtOption::new($A(f.unwrap_or(Fr::zero())), Choice::from(ok as u8))
        }
        fn from_bytes_unchecked(b: &Enc<$n>) -> CtOption<Self> { Self::from_bytes(b) }
        fn to_bytes(&self) -> Enc<$n> { let mut o = [0u8; $n]; o[..32].copy_from_slice(&self.0.to_bytes()); Enc(o) }
    }
    impl GroupEncoding for $G {
        type Repr = Enc<$n>;
        fn from_bytes(b: &Enc<$n>) -> CtOption<Self> { $A::from_bytes(b).map(|a| $G(a.0)) }
        fn from_bytes_unchecked(b: &Enc<$n>) -> CtOption<Self> { Self::from_bytes(b) }
        fn to_bytes(&self) -> Enc<$n> { $A(self.0).to_bytes() }
    }
    impl UncompressedEncoding for $A {
        type Uncompressed = Enc<{ 2 * $n }>;
        fn from_uncompressed(b: &Self::Uncompressed) -> CtOption<Self> {
            let pad = b.0[32..].iter().all(|x| *x == 0);
            let f = Fr::from_bytes(b.0[..32].try_into().unwrap());
            let ok = pad && bool::from(f.is_some());
            CtOption::new($A(f.unwrap_or(Fr::zero())), Choice::from(ok as u8))
        }
        fn from_uncompressed_unchecked(b: &Self::Uncompressed) -> CtOption<Self> { Self::from_uncompressed(b) }
        fn to_uncompressed(&self) -> Self::Uncompressed { let mut o = [0u8; 2 * $n]; o[..32].copy_from_slice(&self.0.to_bytes()); Enc(o) }
    }
    impl PrimeGroup for $G {}
    impl PrimeCurve for $G { type Affine = $A; }
    impl PrimeCurveAffine for $A {
        type Scalar = Fr;
        type Curve = $G;
        fn generator() -> Self { $A(Fr::one()) }
        fn identity() -> Self { $A(Fr::zero()) }
        fn is_identity(&self) -> Choice { Field::is_zero(&self.0) }
        fn to_curve(&self) -> $G { $G(self.0) }
    }
    impl CurveExt for $G { type ScalarExt = Fr; type Base = Fq; type AffineExt = $A; const CURVE_ID: &'static str = $tag; }
    impl CurveAffine for $A {
        type ScalarExt = Fr;
        type Base = Fq;
        type CurveExt = $G;
        // the identity has no coordinates on a curve either
        fn coordinates(&self) -> CtOption<Coordinates<Self>> { CtOption::new(Coordinates { x: self.0, y: self.0.square() + Fr::from(3u64) }, !Field::is_zero(&self.0)) }
        fn from_xy(x: Fq, y: Fq) -> CtOption<Self> { let ok = y == x.square() + Fr::from(3u64); CtOption::new($A(x), Choice::from(ok as u8)) }
        fn is_on_curve(&self) -> Choice { Choice::from(1) }
    }
    impl $A { pub fn generator() -> Self { $A(Fr::one()) } pub fn identity() -> Self { $A(Fr::zero()) } }
    impl $G { pub fn generator() -> Self { $G(Fr::one()) } pub fn identity() -> Self { $G(Fr::zero()) } }
};
(@lin $L:ident, $Rr:ident, $O:ident) => {
    impl Add<$Rr> for $L { type Output = $O; fn add(self, o: $Rr) -> $O { $O(self.0 + o.0) } }
    impl Add<&$Rr> for $L { type Output = $O; fn add(self, o: &$Rr) -> $O { $O(self.0 + o.0) } }
    impl Add<$Rr> for &$L { type Output = $O; fn add(self, o: $Rr) -> $O { $O(self.0 + o.0) } }
    impl Add<&$Rr> for &$L { type Output = $O; fn add(self, o: &$Rr) -> $O { $O(self.0 + o.0) } }
    impl Sub<$Rr> for $L { type Output = $O; fn sub(self, o: $Rr) -> $O { $O(self.0 - o.0) } }
    impl Sub<&$Rr> for $L { type Output = $O; fn sub(self, o: &$Rr) -> $O { $O(self.0 - o.0) } }
    impl Sub<$Rr> for &$L { type Output = $O; fn sub(self, o: $Rr) -> $O { $O(self.0 - o.0) } }
    impl Sub<&$Rr> for &$L { type Output = $O; fn sub(self, o: &$Rr) -> $O { $O(self.0 - o.0) } }
};
(@asg $L:ident, $Rr:ident) => {
    impl AddAssign<$Rr> for $L { fn add_assign(&mut self, o: $Rr) { self.0 += o.0 } }
    impl AddAssign<&$Rr> for $L { fn add_assign(&mut self, o: &$Rr) { self.0 += o.0 } }
    impl SubAssign<$Rr> for $L { fn sub_assign(&mut self, o: $Rr) { self.0 -= o.0 } }
    impl SubAssign<&$Rr> for $L { fn sub_assign(&mut self, o: &$Rr) { self.0 -= o.0 } }
};
(@mul $L:ident, $O:ident) => {
    impl Mul<Fr> for $L { type Output = $O; fn mul(self, s: Fr) -> $O { $O(self.0 * s) } }
    impl Mul<&Fr> for $L { type Output = $O; fn mul(self, s: &Fr) -> $O { $O(self.0 * s) } }
    impl Mul<Fr> for &$L { type Output = $O; fn mul(self, s: Fr) -> $O { $O(self.0 * s) } }
    impl Mul<&Fr> for &$L { type Output = $O; fn mul(self, s: &Fr) -> $O { $O(self.0 * s) } }
}; }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Enc<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Enc<N> { fn default() -> Self { Enc([0; N]) } }
impl<const N: usize> AsRef<[u8]> for Enc<N> { fn as_ref(&self) -> &[u8] { &self.0 } }
impl<const N: usize> AsMut<[u8]> for Enc<N> { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
group!(G1, G1Affine, 32, "ideal-g1");
group!(G2, G2Affine, 64, "ideal-g2");
group!(Gt, GtAffine, 32, "ideal-gt");

#[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
pub struct Bn256;
impl Engine for Bn256 {
    type Fr = Fr; type G1 = G1; type G1Affine = G1Affine; type G2 = G2; type G2Affine = G2Affine; type Gt = Gt;
    fn pairing(p: &G1Affine, q: &G2Affine) -> Gt { Gt(p.0 * q.0) }
}
impl PairingCurveAffine for G1Affine { type Pair = G2Affine; type PairingResult = Gt; fn pairing_with(&self, o: &G2Affine) -> Gt { Gt(self.0 * o.0) } }
impl PairingCurveAffine for G2Affine { type Pair = G1Affine; type PairingResult = Gt; fn pairing_with(&self, o: &G1Affine) -> Gt { Gt(self.0 * o.0) } }
#[derive(Clone, Copy, Debug)]
pub struct G2Prepared(G2Affine);
impl From<G2Affine> for G2Prepared { fn from(a: G2Affine) -> Self { G2Prepared(a) } }
impl MillerLoopResult for Gt { type Gt = Gt; fn final_exponentiation(&self) -> Gt { *self } }
impl MultiMillerLoop for Bn256 {
    type G2Prepared = G2Prepared;
    type Result = Gt;
    fn multi_miller_loop(t: &[(&G1Affine, &G2Prepared)]) -> Gt { t.iter().map(|(a, b)| Gt(a.0 * b.0 .0)).sum() }
}
