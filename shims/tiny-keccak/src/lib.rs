//! Offline stand-in for `tiny-keccak` 2.0 (Keccak and SHA-3), written from the Keccak specification.
pub trait Hasher { fn update(&mut self, input: &[u8]); fn finalize(self, output: &mut [u8]); }
const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
const RC: [u64; 24] = {
    // round constants from the LFSR of the specification
    let mut rc = [0u64; 24];
    let mut lfsr = 1u8;
    let mut i = 0;
    while i < 24 {
        let mut j = 0;
        while j < 7 {
            if lfsr & 1 == 1 { rc[i] ^= 1u64 << ((1u32 << j) - 1); }
            lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
            j += 1;
        }
        i += 1;
    }
    rc
};
pub fn keccakf(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x + 5 * y] ^= d; } }
        let mut t = a[1];
        for i in 0..24 { let n = a[PI[i]]; a[PI[i]] = t.rotate_left(RHO[i]); t = n; }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 { a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]); }
        }
        a[0] ^= rc;
    }
}
#[derive(Clone)]
struct Sponge { a: [u64; 25], rate: usize, pos: usize, pad: u8 }
impl Sponge {
    fn new(bits: usize, pad: u8) -> Self { Sponge { a: [0; 25], rate: 200 - bits / 4, pos: 0, pad } }
    fn byte(&mut self, b: u8) { self.a[self.pos / 8] ^= (b as u64) << (8 * (self.pos % 8)); }
    fn update(&mut self, d: &[u8]) { for &b in d { self.byte(b); self.pos += 1; if self.pos == self.rate { keccakf(&mut self.a); self.pos = 0; } } }
    fn finalize(mut self, out: &mut [u8]) {
        let p = self.pad; self.byte(p); self.pos = self.rate - 1; self.byte(0x80); keccakf(&mut self.a);
        let mut k = 0;
        for o in out.iter_mut() {
            if k == self.rate { keccakf(&mut self.a); k = 0; }
            *o = (self.a[k / 8] >> (8 * (k % 8))) as u8; k += 1;
        }
    }
}
macro_rules! h { ($n:ident, $pad:expr) => {
    #[derive(Clone)] pub struct $n(Sponge);
    impl $n { pub fn v224() -> Self { $n(Sponge::new(224, $pad)) } pub fn v256() -> Self { $n(Sponge::new(256, $pad)) }
              pub fn v384() -> Self { $n(Sponge::new(384, $pad)) } pub fn v512() -> Self { $n(Sponge::new(512, $pad)) } }
    impl Hasher for $n { fn update(&mut self, i: &[u8]) { self.0.update(i) } fn finalize(self, o: &mut [u8]) { self.0.finalize(o) } }
} }
h!(Keccak, 0x01);
h!(Sha3, 0x06);
#[cfg(test)] mod t { use super::*;
 #[test] fn v() { let mut o=[0u8;32]; Keccak::v256().finalize(&mut o);
  assert_eq!(o.iter().map(|b| format!("{b:02x}")).collect::<String>(), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
  let mut h=Sha3::v256(); h.update(b"abc"); h.finalize(&mut o);
  assert_eq!(o.iter().map(|b| format!("{b:02x}")).collect::<String>(), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"); } }
