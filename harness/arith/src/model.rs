//! Reference model of the fields: flat coefficient vectors (lane-major) of integers mod p.
use arith::{ExtensionField, Field, SimdField};
use babybear::*;
use ethnum::U256;
use gf2::*;
use gf2_128::*;
use goldilocks::*;
use halo2curves::bn256::Fr;
use mersenne31::*;
use pbt::*;

pub fn addm(a: U256, b: U256, p: U256) -> U256 {
    // a, b < p < 2^255
    let s = a + b;
    if s >= p { s - p } else { s }
}
pub fn subm(a: U256, b: U256, p: U256) -> U256 {
    if a >= b { a - b } else { p - (b - a) }
}
pub fn mulm(a: U256, b: U256, p: U256) -> U256 {
    if p.0[1] == 0 && p.0[0] <= 1 << 64 {
        return U256::new((a.0[0] * b.0[0]) % p.0[0]);
    }
    let mut r = U256::ZERO;
    for i in (0..256 - b.leading_zeros()).rev() {
        r = addm(r, r, p);
        if (b >> i).0[0] & 1 == 1 {
            r = addm(r, a, p);
        }
    }
    r
}
pub fn powm(a: U256, mut e: U256, p: U256) -> U256 {
    let (mut b, mut r) = (a, U256::ONE % p);
    while e != U256::ZERO {
        if e.0[0] & 1 == 1 { r = mulm(r, b, p); }
        b = mulm(b, b, p);
        e >>= 1u32;
    }
    r
}

/// polynomial product modulo x^d - W over Z_p
pub fn binom(a: &[U256], b: &[U256], w: u64, p: U256) -> Vec<U256> {
    let d = a.len();
    let mut r = vec![U256::ZERO; 2 * d - 1];
    for i in 0..d { for j in 0..d { r[i + j] = addm(r[i + j], mulm(a[i], b[j], p), p); } }
    let mut o = r[..d].to_vec();
    for k in d..2 * d - 1 { o[k - d] = addm(o[k - d], mulm(r[k], U256::from(w), p), p); }
    o
}

pub trait Fl: Field {
    const LANES: usize = 1;
    const DEG: usize = 1;
    const HAS_INV: bool = true;
    const HAS_ORD: bool = true;
    /// from_uniform_bytes: bytes used per lane, None when the type does not offer it
    const CANON_SER: bool = true;
    fn inv2() -> Option<Self> { None }
    fn p() -> U256;
    fn build(c: &[U256]) -> Self;
    fn flat(&self) -> Vec<U256>;
    fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256>;
    /// an element whose internal representation need not be the canonical one
    fn odd(_s: &mut Src) -> Option<(Self, Vec<U256>)> { None }
}

pub fn order_minus_2(p: U256, deg: usize) -> Vec<bool> {
    // bits (lsb first) of p^deg - 2, schoolbook over u64 words
    let pw = [p.0[0] as u64, (p.0[0] >> 64) as u64, p.0[1] as u64, (p.0[1] >> 64) as u64];
    let mut n = vec![1u64];
    for _ in 0..deg {
        let mut r = vec![0u64; n.len() + 4];
        for i in 0..n.len() {
            let mut c = 0u128;
            for j in 0..4 { let t = n[i] as u128 * pw[j] as u128 + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64; }
            let mut k = i + 4;
            while c > 0 { let t = r[k] as u128 + c; r[k] = t as u64; c = t >> 64; k += 1; }
        }
        n = r;
    }
    let mut bor = 2u64;
    for w in n.iter_mut() { let (v, b) = w.overflowing_sub(bor); *w = v; bor = b as u64; if bor == 0 { break; } }
    n.iter().flat_map(|w| (0..64).map(move |i| w >> i & 1 == 1)).collect()
}

macro_rules! prime { ($t:ty, $p:expr $(, $odd:expr)?) => {
    impl Fl for $t {
        fn inv2() -> Option<Self> { Some(Self::INV_2) }
        fn p() -> U256 { $p }
        fn build(c: &[U256]) -> Self { <$t>::from_u256(c[0]) }
        fn flat(&self) -> Vec<U256> { vec![self.to_u256()] }
        fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256> { vec![mulm(a[0], b[0], Self::p())] }
        $(fn odd(s: &mut Src) -> Option<(Self, Vec<U256>)> { let f: fn(&mut Src) -> (Self, u128) = $odd; let (x, v) = f(s); Some((x, vec![U256::new(v)])) })?
    }
} }
pub const M31P: u128 = (1 << 31) - 1;
pub const BBP: u128 = 0x78000001;
pub const GLP: u128 = 0xFFFF_FFFF_0000_0001;
pub fn bn_p() -> U256 {
    U256::from_words(0x30644e72e131a029b85045b68181585d, 0x2833e84879b9709143e1f593f0000001)
}
prime!(M31, U256::new(M31P), |s| if s.bool() { (M31 { v: M31P as u32 }, 0) } else { let v = s.draw((1 << 31) - 1) as u32; (M31 { v }, v as u128 % M31P) });
prime!(BabyBear, U256::new(BBP));
prime!(Goldilocks, U256::new(GLP), |s| { let v = match s.below(3) { 0 => u64::MAX - s.draw(4), 1 => GOLDILOCKS_MOD + s.draw(0xffff_fffe), _ => s.u64_any() }; (Goldilocks { v }, v as u128 % GLP) });
impl Fl for GF2 {
    fn p() -> U256 { U256::new(2) }
    fn build(c: &[U256]) -> Self { GF2::from_u256(c[0]) }
    fn flat(&self) -> Vec<U256> { vec![self.to_u256()] }
    fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256> { vec![a[0] & b[0]] }
}
prime!(Fr, bn_p());

macro_rules! ext { ($t:ty, $b:ty, $d:expr, $w:expr, $ord:expr) => {
    impl Fl for $t {
        const HAS_ORD: bool = $ord;
        const DEG: usize = $d;
        fn inv2() -> Option<Self> { Some(Self::INV_2) }
        fn p() -> U256 { <$b as Fl>::p() }
        fn build(c: &[U256]) -> Self { <$t>::from_limbs(&c.iter().map(|x| <$b as Fl>::build(&[*x])).collect::<Vec<_>>()) }
        fn flat(&self) -> Vec<U256> { self.to_limbs().iter().map(|x| x.flat()[0]).collect() }
        fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256> { binom(a, b, $w, Self::p()) }
        fn odd(s: &mut Src) -> Option<(Self, Vec<U256>)> {
            let v: Option<Vec<_>> = (0..$d).map(|_| <$b as Fl>::odd(s)).collect();
            let (l, m): (Vec<_>, Vec<Vec<U256>>) = v?.into_iter().unzip();
            Some((<$t>::from_limbs(&l), m.concat()))
        }
    }
} }
ext!(M31Ext3, M31, 3, 5, false);
ext!(BabyBearExt3, BabyBear, 3, 2, false);
ext!(GoldilocksExt2, Goldilocks, 2, 7, false);
ext!(GoldilocksExt3, Goldilocks, 3, 2, true);
ext!(GoldilocksExt4, Goldilocks, 4, 7, true);

impl Fl for M31Ext6 {
    const HAS_ORD: bool = false;
    const DEG: usize = 6;
    fn p() -> U256 { M31::p() }
    fn build(c: &[U256]) -> Self { M31Ext6::from_limbs(&[M31Ext3::build(&c[..3]), M31Ext3::build(&c[3..])]) }
    fn flat(&self) -> Vec<U256> { self.to_limbs().iter().flat_map(|x| x.flat()).collect() }
    fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256> {
        // y^2 = -2 over M31[x]/(x^3-5)
        let p = Self::p();
        let m = |x: &[U256], y: &[U256]| binom(x, y, 5, p);
        let (a0, a1, b0, b1) = (&a[..3], &a[3..], &b[..3], &b[3..]);
        let t = m(a1, b1);
        let lo: Vec<_> = m(a0, b0).iter().zip(&t).map(|(x, y)| subm(subm(*x, *y, p), *y, p)).collect();
        let hi: Vec<_> = m(a0, b1).iter().zip(m(a1, b0)).map(|(x, y)| addm(*x, y, p)).collect();
        [lo, hi].concat()
    }
}
impl Fl for GoldilocksExt2Scalar {
    const DEG: usize = 2;
    fn p() -> U256 { Goldilocks::p() }
    fn build(c: &[U256]) -> Self { Self(GoldilocksExt2::build(c)) }
    fn flat(&self) -> Vec<U256> { self.0.flat() }
    fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256> { GoldilocksExt2::lane_mul(a, b) }
    fn odd(s: &mut Src) -> Option<(Self, Vec<U256>)> { GoldilocksExt2::odd(s).map(|(a, b)| (Self(a), b)) }
}
pub fn g128(c: &[U256]) -> u128 { c.iter().enumerate().fold(0, |a, (i, b)| a | (b.0[0] << i)) }
pub fn g128_un(v: u128) -> Vec<U256> { (0..128).map(|i| U256::new(v >> i & 1)).collect() }
pub fn g128_mul(a: u128, b: u128) -> u128 {
    let (mut r, mut t) = (0u128, a);
    for i in 0..128 { if b >> i & 1 == 1 { r ^= t; } t = (t << 1) ^ if t >> 127 == 1 { 0x87 } else { 0 }; }
    r
}
impl Fl for GF2_128 {
    const DEG: usize = 128;
    const HAS_ORD: bool = false;
    fn p() -> U256 { U256::new(2) }
    fn build(c: &[U256]) -> Self { GF2_128::from_limbs(&c.iter().map(|x| GF2::from_u256(*x)).collect::<Vec<_>>()) }
    fn flat(&self) -> Vec<U256> { self.to_limbs().iter().map(|x| x.to_u256()).collect() }
    fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256> { g128_un(g128_mul(g128(a), g128(b))) }
}

macro_rules! simd { ($t:ty, $s:ty, $n:expr, $inv:expr $(, $i2:expr)?) => {
    impl Fl for $t {
        const LANES: usize = $n;
        const DEG: usize = <$s as Fl>::DEG;
        const HAS_INV: bool = $inv;
        $(fn inv2() -> Option<Self> { Some($i2) })?
        const HAS_ORD: bool = false;
        fn p() -> U256 { <$s as Fl>::p() }
        fn build(c: &[U256]) -> Self { <$t>::pack(&c.chunks(Self::DEG).map(<$s as Fl>::build).collect::<Vec<_>>()) }
        fn flat(&self) -> Vec<U256> { self.unpack().iter().flat_map(|x| x.flat()).collect() }
        fn lane_mul(a: &[U256], b: &[U256]) -> Vec<U256> { <$s as Fl>::lane_mul(a, b) }
        fn odd(s: &mut Src) -> Option<(Self, Vec<U256>)> {
            if Self::p() != U256::new(GLP) { return None } // only Goldilocks scalars ever leave canonical form
            let v: Option<Vec<_>> = (0..$n).map(|_| <$s as Fl>::odd(s)).collect();
            let (l, m): (Vec<_>, Vec<Vec<U256>>) = v?.into_iter().unzip();
            Some((<$t>::pack(&l), m.concat()))
        }
    }
} }
simd!(M31x16, M31, 16, true, Self::INV_2);
simd!(M31Ext3x16, M31Ext3, 16, false, Self::INV_2);
simd!(BabyBearx16, BabyBear, 16, true, Self::INV_2);
simd!(BabyBearExt3x16, BabyBearExt3, 16, false, Self::INV_2);
simd!(Goldilocksx8, Goldilocks, 8, true, Self::INV_2);
simd!(GoldilocksExt2x8, GoldilocksExt2, 8, false, Self::INV_2);
simd!(GF2x8, GF2, 8, false);
simd!(GF2x64, GF2, 64, false);
simd!(GF2x128, GF2, 128, false);
simd!(GF2_128x8, GF2_128, 8, true);
simd!(arith::FrxN<4>, Fr, 4, true, Self::INV_2);

pub fn gen_coef(s: &mut Src, p: U256) -> U256 {
    let p1 = p - U256::ONE;
    match s.weighted(&[3, 3, 2, 2, 4]) {
        0 => U256::from(s.draw(4)) % p,
        1 => p1 - U256::from(s.draw(4)) % p,
        2 => { let b = s.draw(255) as u32; let v = U256::ONE << b; (if s.bool() { v } else { v - U256::ONE }) % p }
        3 => (p1 >> 1u32) + U256::from(s.draw(2)) % p,
        _ => U256::from_words((s.u64_any() as u128) << 64 | s.u64_any() as u128, (s.u64_any() as u128) << 64 | s.u64_any() as u128) % p,
    }
}
pub fn gen_flat<F: Fl>(s: &mut Src) -> Vec<U256> {
    let p = F::p();
    let n = F::LANES * F::DEG;
    match s.weighted(&[1, 1, 8, 2]) {
        0 => vec![U256::ZERO; n],
        1 => one::<F>(),
        3 if F::DEG > 1 => { let mut v = vec![U256::ZERO; n]; for l in 0..F::LANES { v[l * F::DEG + s.below(F::DEG)] = gen_coef(s, p); } v }
        _ if n > 64 => { let mut r = SplitMix(s.u64_any()); (0..n).map(|_| U256::from(r.next()) % p).collect() }
        _ => (0..n).map(|_| gen_coef(s, p)).collect(),
    }
}
pub fn one<F: Fl>() -> Vec<U256> {
    let mut v = vec![U256::ZERO; F::LANES * F::DEG];
    for l in 0..F::LANES { v[l * F::DEG] = U256::ONE; }
    v
}
pub fn m_add<F: Fl>(a: &[U256], b: &[U256]) -> Vec<U256> { a.iter().zip(b).map(|(x, y)| addm(*x, *y, F::p())).collect() }
pub fn m_sub<F: Fl>(a: &[U256], b: &[U256]) -> Vec<U256> { a.iter().zip(b).map(|(x, y)| subm(*x, *y, F::p())).collect() }
pub fn m_mul<F: Fl>(a: &[U256], b: &[U256]) -> Vec<U256> {
    a.chunks(F::DEG).zip(b.chunks(F::DEG)).flat_map(|(x, y)| F::lane_mul(x, y)).collect()
}
pub fn m_pow<F: Fl>(a: &[U256], e: u128) -> Vec<U256> {
    let (mut b, mut r, mut e) = (a.to_vec(), one::<F>(), e);
    while e > 0 {
        if e & 1 == 1 { r = m_mul::<F>(&r, &b); }
        b = m_mul::<F>(&b, &b);
        e >>= 1;
    }
    r
}
