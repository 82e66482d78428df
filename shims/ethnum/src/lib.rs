//! Offline stand-in for `ethnum` 1.5: a 256-bit unsigned integer, two u128 limbs (low, high).
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct U256(pub [u128; 2]);
#[allow(non_camel_case_types)]
pub type u256 = U256;

impl U256 {
    pub const ZERO: U256 = U256([0, 0]);
    pub const ONE: U256 = U256([1, 0]);
    pub const MIN: U256 = U256([0, 0]);
    pub const MAX: U256 = U256([u128::MAX, u128::MAX]);
    pub const BITS: u32 = 256;
    pub const fn new(v: u128) -> Self { U256([v, 0]) }
    pub const fn from_words(hi: u128, lo: u128) -> Self { U256([lo, hi]) }
    pub const fn into_words(self) -> (u128, u128) { (self.0[1], self.0[0]) }
    pub const fn low(&self) -> &u128 { &self.0[0] }
    pub const fn high(&self) -> &u128 { &self.0[1] }
    pub const fn as_u8(self) -> u8 { self.0[0] as u8 }
    pub const fn as_u16(self) -> u16 { self.0[0] as u16 }
    pub const fn as_u32(self) -> u32 { self.0[0] as u32 }
    pub const fn as_u64(self) -> u64 { self.0[0] as u64 }
    pub const fn as_u128(self) -> u128 { self.0[0] }
    pub const fn as_usize(self) -> usize { self.0[0] as usize }
    pub const fn as_i8(self) -> i8 { self.0[0] as i8 }
    pub const fn as_i16(self) -> i16 { self.0[0] as i16 }
    pub const fn as_i32(self) -> i32 { self.0[0] as i32 }
    pub const fn as_i64(self) -> i64 { self.0[0] as i64 }
    pub const fn as_i128(self) -> i128 { self.0[0] as i128 }
    pub fn as_f64(self) -> f64 { self.0[1] as f64 * 2f64.powi(128) + self.0[0] as f64 }
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut o = [0u8; 32];
        o[..16].copy_from_slice(&self.0[0].to_le_bytes());
        o[16..].copy_from_slice(&self.0[1].to_le_bytes());
        o
    }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        U256([
            u128::from_le_bytes(b[..16].try_into().unwrap()),
            u128::from_le_bytes(b[16..].try_into().unwrap()),
        ])
    }
    pub fn to_be_bytes(self) -> [u8; 32] { let mut o = self.to_le_bytes(); o.reverse(); o }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self { b.reverse(); Self::from_le_bytes(b) }
    pub fn leading_zeros(self) -> u32 {
        if self.0[1] != 0 { self.0[1].leading_zeros() } else { 128 + self.0[0].leading_zeros() }
    }
    pub fn trailing_zeros(self) -> u32 {
        if self.0[0] != 0 { self.0[0].trailing_zeros() } else { 128 + self.0[1].trailing_zeros() }
    }
    pub fn count_ones(self) -> u32 { self.0[0].count_ones() + self.0[1].count_ones() }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (lo, c) = self.0[0].overflowing_add(o.0[0]);
        let (h, c1) = self.0[1].overflowing_add(o.0[1]);
        let (h, c2) = h.overflowing_add(c as u128);
        (U256([lo, h]), c1 | c2)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let (lo, c) = self.0[0].overflowing_sub(o.0[0]);
        let (h, c1) = self.0[1].overflowing_sub(o.0[1]);
        let (h, c2) = h.overflowing_sub(c as u128);
        (U256([lo, h]), c1 | c2)
    }
    fn w(self) -> [u64; 4] {
        [self.0[0] as u64, (self.0[0] >> 64) as u64, self.0[1] as u64, (self.0[1] >> 64) as u64]
    }
    fn fw(w: [u64; 4]) -> Self {
        U256([w[0] as u128 | (w[1] as u128) << 64, w[2] as u128 | (w[3] as u128) << 64])
    }
    pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
        let (a, b) = (self.w(), o.w());
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + 4] = c as u64;
        }
        (Self::fw([r[0], r[1], r[2], r[3]]), r[4..].iter().any(|x| *x != 0))
    }
    pub fn div_rem(self, o: Self) -> (Self, Self) {
        assert!(o != Self::ZERO, "attempt to divide by zero");
        if self.0[1] == 0 && o.0[1] == 0 {
            return (U256([self.0[0] / o.0[0], 0]), U256([self.0[0] % o.0[0], 0]));
        }
        let (mut q, mut r) = (Self::ZERO, Self::ZERO);
        for i in (0..256 - self.leading_zeros()).rev() {
            let top = r.0[1] >> 127 == 1;
            r = r << 1u32;
            if (self >> i).0[0] & 1 == 1 { r.0[0] |= 1; }
            if top || r >= o {
                r = r.overflowing_sub(o).0;
                q = q | (Self::ONE << i);
            }
        }
        (q, r)
    }
    pub fn wrapping_add(self, o: Self) -> Self { self.overflowing_add(o).0 }
    pub fn wrapping_sub(self, o: Self) -> Self { self.overflowing_sub(o).0 }
    pub fn wrapping_mul(self, o: Self) -> Self { self.overflowing_mul(o).0 }
    pub fn checked_add(self, o: Self) -> Option<Self> { let (v, c) = self.overflowing_add(o); (!c).then_some(v) }
    pub fn checked_sub(self, o: Self) -> Option<Self> { let (v, c) = self.overflowing_sub(o); (!c).then_some(v) }
    pub fn checked_mul(self, o: Self) -> Option<Self> { let (v, c) = self.overflowing_mul(o); (!c).then_some(v) }
    pub fn checked_div(self, o: Self) -> Option<Self> { (o != Self::ZERO).then(|| self / o) }
    pub fn checked_rem(self, o: Self) -> Option<Self> { (o != Self::ZERO).then(|| self % o) }
    pub fn saturating_sub(self, o: Self) -> Self { self.checked_sub(o).unwrap_or(Self::ZERO) }
    pub fn saturating_add(self, o: Self) -> Self { self.checked_add(o).unwrap_or(Self::MAX) }
    pub fn checked_shl(self, s: u32) -> Option<Self> { (s < 256).then(|| self << s) }
    pub fn checked_shr(self, s: u32) -> Option<Self> { (s < 256).then(|| self >> s) }
    pub fn checked_pow(self, mut e: u32) -> Option<Self> {
        let (mut b, mut r) = (self, Self::ONE);
        while e > 0 {
            if e & 1 == 1 { r = r.checked_mul(b)?; }
            e >>= 1;
            if e > 0 { b = b.checked_mul(b)?; }
        }
        Some(r)
    }
    pub fn pow(self, mut e: u32) -> Self {
        let (mut b, mut r) = (self, Self::ONE);
        while e > 0 {
            if e & 1 == 1 { r = r * b; }
            e >>= 1;
            if e > 0 { b = b * b; }
        }
        r
    }
    pub fn div_euclid(self, o: Self) -> Self { self / o }
    pub fn rem_euclid(self, o: Self) -> Self { self % o }
    pub fn is_power_of_two(self) -> bool { self.count_ones() == 1 }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, core::num::ParseIntError> {
        let err = || "x".parse::<u32>().unwrap_err();
        if s.is_empty() { return Err(err()); }
        let mut r = Self::ZERO;
        for c in s.chars() {
            let d = c.to_digit(radix).ok_or_else(err)?;
            r = r.checked_mul(Self::new(radix as u128)).and_then(|x| x.checked_add(Self::new(d as u128))).ok_or_else(err)?;
        }
        Ok(r)
    }
    pub fn from_str_hex(s: &str) -> Result<Self, core::num::ParseIntError> {
        Self::from_str_radix(s.strip_prefix("0x").unwrap_or(s), 16)
    }
    pub fn from_str_prefixed(s: &str) -> Result<Self, core::num::ParseIntError> {
        match s.strip_prefix("0x") { Some(h) => Self::from_str_radix(h, 16), None => Self::from_str_radix(s, 10) }
    }
}
impl std::str::FromStr for U256 {
    type Err = core::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> { Self::from_str_radix(s, 10) }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering { self.0[1].cmp(&o.0[1]).then(self.0[0].cmp(&o.0[0])) }
}
impl PartialOrd for U256 { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl PartialEq<u128> for U256 { fn eq(&self, o: &u128) -> bool { *self == U256::new(*o) } }
impl PartialOrd<u128> for U256 { fn partial_cmp(&self, o: &u128) -> Option<Ordering> { Some(self.cmp(&U256::new(*o))) } }
macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u128, 0]) } })* } }
from! { u8 u16 u32 u64 u128 bool }
macro_rules! tryfrom { ($($t:ty)*) => { $(impl TryFrom<$t> for U256 { type Error = core::num::TryFromIntError;
    fn try_from(v: $t) -> Result<Self, Self::Error> { u128::try_from(v).map(U256::new) } })* } }
tryfrom! { i8 i16 i32 i64 i128 isize usize }
macro_rules! tryinto { ($($t:ty)*) => { $(impl TryFrom<U256> for $t { type Error = core::num::TryFromIntError;
    fn try_from(v: U256) -> Result<Self, Self::Error> {
        if v.0[1] != 0 { return u8::try_from(256u32).map(|_| 0 as $t) } 
        <$t>::try_from(v.0[0]) } })* } }
tryinto! { u8 u16 u32 u64 usize i8 i16 i32 i64 i128 }
impl TryFrom<U256> for u128 { type Error = core::num::TryFromIntError;
    fn try_from(v: U256) -> Result<Self, Self::Error> {
        if v.0[1] != 0 { return u8::try_from(256u32).map(|_| 0u128) }
        Ok(v.0[0]) } }
macro_rules! op { ($Tr:ident $f:ident $TrA:ident $fa:ident, |$a:ident, $b:ident| $e:expr) => {
    impl $Tr for U256 { type Output = U256; fn $f(self, o: U256) -> U256 { let ($a, $b) = (self, o); $e } }
    impl<'a> $Tr<&'a U256> for U256 { type Output = U256; fn $f(self, o: &U256) -> U256 { $Tr::$f(self, *o) } }
    impl<'a> $Tr<U256> for &'a U256 { type Output = U256; fn $f(self, o: U256) -> U256 { $Tr::$f(*self, o) } }
    impl<'a, 'b> $Tr<&'b U256> for &'a U256 { type Output = U256; fn $f(self, o: &U256) -> U256 { $Tr::$f(*self, *o) } }
    impl $Tr<u128> for U256 { type Output = U256; fn $f(self, o: u128) -> U256 { $Tr::$f(self, U256::new(o)) } }
    impl $TrA for U256 { fn $fa(&mut self, o: U256) { *self = $Tr::$f(*self, o) } }
    impl<'a> $TrA<&'a U256> for U256 { fn $fa(&mut self, o: &U256) { *self = $Tr::$f(*self, *o) } }
    impl $TrA<u128> for U256 { fn $fa(&mut self, o: u128) { *self = $Tr::$f(*self, U256::new(o)) } }
} }
fn ovf(r: (U256, bool), w: &str) -> U256 { if cfg!(debug_assertions) && r.1 { panic!("attempt to {w} with overflow") } r.0 }
op!(Add add AddAssign add_assign, |a, b| ovf(a.overflowing_add(b), "add"));
op!(Sub sub SubAssign sub_assign, |a, b| ovf(a.overflowing_sub(b), "subtract"));
op!(Mul mul MulAssign mul_assign, |a, b| ovf(a.overflowing_mul(b), "multiply"));
op!(Div div DivAssign div_assign, |a, b| a.div_rem(b).0);
op!(Rem rem RemAssign rem_assign, |a, b| a.div_rem(b).1);
op!(BitAnd bitand BitAndAssign bitand_assign, |a, b| U256([a.0[0] & b.0[0], a.0[1] & b.0[1]]));
op!(BitOr bitor BitOrAssign bitor_assign, |a, b| U256([a.0[0] | b.0[0], a.0[1] | b.0[1]]));
op!(BitXor bitxor BitXorAssign bitxor_assign, |a, b| U256([a.0[0] ^ b.0[0], a.0[1] ^ b.0[1]]));
impl Not for U256 { type Output = U256; fn not(self) -> U256 { U256([!self.0[0], !self.0[1]]) } }
fn shl(a: U256, s: u32) -> U256 {
    if s == 0 { a } else if s >= 256 { if cfg!(debug_assertions) { panic!("attempt to shift left with overflow") } shl(a, s % 256) }
    else if s >= 128 { U256([0, if s == 128 { a.0[0] } else { a.0[0] << (s - 128) }]) }
    else { U256([a.0[0] << s, a.0[1] << s | a.0[0] >> (128 - s)]) }
}
fn shr(a: U256, s: u32) -> U256 {
    if s == 0 { a } else if s >= 256 { if cfg!(debug_assertions) { panic!("attempt to shift right with overflow") } shr(a, s % 256) }
    else if s >= 128 { U256([if s == 128 { a.0[1] } else { a.0[1] >> (s - 128) }, 0]) }
    else { U256([a.0[0] >> s | a.0[1] << (128 - s), a.0[1] >> s]) }
}
macro_rules! sh { ($($t:ty)*) => { $(
    impl Shl<$t> for U256 { type Output = U256; fn shl(self, s: $t) -> U256 { shl(self, s as u32) } }
    impl Shr<$t> for U256 { type Output = U256; fn shr(self, s: $t) -> U256 { shr(self, s as u32) } }
    impl Shl<$t> for &U256 { type Output = U256; fn shl(self, s: $t) -> U256 { shl(*self, s as u32) } }
    impl Shr<$t> for &U256 { type Output = U256; fn shr(self, s: $t) -> U256 { shr(*self, s as u32) } }
    impl ShlAssign<$t> for U256 { fn shl_assign(&mut self, s: $t) { *self = shl(*self, s as u32) } }
    impl ShrAssign<$t> for U256 { fn shr_assign(&mut self, s: $t) { *self = shr(*self, s as u32) } }
)* } }
sh! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl Shl<U256> for U256 { type Output = U256; fn shl(self, s: U256) -> U256 { shl(self, s.as_u32()) } }
impl Shr<U256> for U256 { type Output = U256; fn shr(self, s: U256) -> U256 { shr(self, s.as_u32()) } }
impl std::iter::Sum for U256 { fn sum<I: Iterator<Item = U256>>(i: I) -> U256 { i.fold(U256::ZERO, |a, b| a + b) } }
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = *self;
        let mut parts = vec![];
        let base = U256::new(10u128.pow(38));
        loop {
            let (q, r) = v.div_rem(base);
            v = q;
            parts.push(r.0[0]);
            if v == U256::ZERO { break; }
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() { s += &format!("{p:038}"); }
        f.pad_integral(true, "", &s)
    }
}
impl fmt::Debug for U256 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = if self.0[1] == 0 { format!("{:x}", self.0[0]) } else { format!("{:x}{:032x}", self.0[1], self.0[0]) };
        f.pad_integral(true, "0x", &s)
    }
}
