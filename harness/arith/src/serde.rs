#![allow(non_camel_case_types)]
//! C27: the binary encoding used for proofs, circuits, witnesses and keys.
use ethnum::U256;
use pbt::*;
use serdes::{ExpSerde, SerdeResult};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};

/// Independent encoder of the documented layout.
trait Enc { fn enc(&self, o: &mut Vec<u8>); }
trait Gen: Sized { fn gen(s: &mut Src, d: usize) -> Self; }
macro_rules! num { ($($t:ty),*) => { $( impl Enc for $t { fn enc(&self, o: &mut Vec<u8>) { let v = *self as u128; for i in 0..std::mem::size_of::<$t>() { o.push((v >> (8 * i)) as u8); } } }
  impl Gen for $t { fn gen(s: &mut Src, _: usize) -> Self { ((s.u64_any() as u128) << 64 | s.u64_any() as u128) as $t } } )* } }
num!(u8, u32, u64, usize, u128);
impl Enc for f64 { fn enc(&self, o: &mut Vec<u8>) { self.to_bits().enc(o) } }
impl Gen for f64 { fn gen(s: &mut Src, _: usize) -> Self { let v = s.f64_any(true); if v.is_nan() { 1.5 } else { v } } }
impl Enc for bool { fn enc(&self, o: &mut Vec<u8>) { o.push(if *self { 1 } else { 0 }) } }
impl Gen for bool { fn gen(s: &mut Src, _: usize) -> Self { s.bool() } }
impl Enc for () { fn enc(&self, _: &mut Vec<u8>) {} }
impl Gen for () { fn gen(_: &mut Src, _: usize) -> Self {} }
impl Enc for U256 { fn enc(&self, o: &mut Vec<u8>) { self.0[0].enc(o); self.0[1].enc(o) } }
impl Gen for U256 { fn gen(s: &mut Src, d: usize) -> Self { U256::from_words(u128::gen(s, d), u128::gen(s, d)) } }
impl Enc for String { fn enc(&self, o: &mut Vec<u8>) { (self.len() as u64).enc(o); o.extend(self.bytes()) } }
impl Gen for String { fn gen(s: &mut Src, _: usize) -> Self { let n = s.usize_in(0, 6); (0..n).map(|_| s.pickc(&['a', 'Z', '\0', 'é', '語', '\u{1F600}', ' '])).collect() } }
impl<T: Enc> Enc for Vec<T> { fn enc(&self, o: &mut Vec<u8>) { (self.len() as u64).enc(o); for x in self { x.enc(o) } } }
impl<T: Gen> Gen for Vec<T> { fn gen(s: &mut Src, d: usize) -> Self { let n = s.usize_in(0, if d > 2 { 1 } else { 5 }); (0..n).map(|_| T::gen(s, d + 1)).collect() } }
impl<T: Enc> Enc for Option<T> { fn enc(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(x) => { o.push(1); x.enc(o) } } } }
impl<T: Gen> Gen for Option<T> { fn gen(s: &mut Src, d: usize) -> Self { if s.bool() { Some(T::gen(s, d + 1)) } else { None } } }
impl<A: Enc, B: Enc> Enc for (A, B) { fn enc(&self, o: &mut Vec<u8>) { self.0.enc(o); self.1.enc(o) } }
impl<A: Gen, B: Gen> Gen for (A, B) { fn gen(s: &mut Src, d: usize) -> Self { (A::gen(s, d + 1), B::gen(s, d + 1)) } }
macro_rules! arr { ($($n:expr),*) => { $( impl<T: Enc> Enc for [T; $n] { fn enc(&self, o: &mut Vec<u8>) { for x in self { x.enc(o) } } }
  impl<T: Gen> Gen for [T; $n] { fn gen(s: &mut Src, d: usize) -> Self { std::array::from_fn(|_| T::gen(s, d + 1)) } } )* } }
arr!(2, 3, 4, 8, 16, 32, 64);

macro_rules! shape {
    (struct $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq, ExpSerde)] pub struct $n { $(pub $f: $t),* }
        impl Enc for $n { fn enc(&self, _o: &mut Vec<u8>) { $( self.$f.enc(_o); )* } }
        impl Gen for $n { fn gen(_s: &mut Src, _d: usize) -> Self { $n { $($f: <$t>::gen(_s, _d + 1)),* } } }
    };
}
shape!(struct Flat { a: u8, b: u32, c: u64, d: u128, e: f64, f: bool, g: U256 });
shape!(struct Zlast { z: u32, y: u8, x: Vec<u8>, w: bool, a: String });
shape!(struct Nest { left: Flat, right: Vec<Flat>, opt: Option<Zlast>, pair: (u32, Zlast), arr: [u32; 3] });
shape!(struct Empty {});
shape!(struct One { only: Vec<Vec<Option<u32>>> });
shape!(struct Arrs { a: [u8; 2], b: [u32; 4], c: [bool; 8], d: [u64; 16], e: [u8; 32], f: [u8; 64], g: [Zlast; 2] });
shape!(struct WithEnum { head: u8, k: Vec<Kind>, tail: u32 });

#[derive(Clone, Debug, PartialEq, ExpSerde)]
pub enum Kind { Unit, Tup(u32, Vec<u8>), Named { x: u8, y: Option<String>, a: u64 }, One(Flat), Zero(), Last }
impl Enc for Kind { fn enc(&self, o: &mut Vec<u8>) { match self {
    Kind::Unit => 0u32.enc(o),
    Kind::Tup(a, b) => { 1u32.enc(o); a.enc(o); b.enc(o) }
    Kind::Named { x, y, a } => { 2u32.enc(o); x.enc(o); y.enc(o); a.enc(o) }
    Kind::One(a) => { 3u32.enc(o); a.enc(o) }
    Kind::Zero() => 4u32.enc(o),
    Kind::Last => 5u32.enc(o) } } }
impl Gen for Kind { fn gen(s: &mut Src, d: usize) -> Self { match s.below(6) { 0 => Kind::Unit, 1 => Kind::Tup(u32::gen(s, d), Vec::gen(s, d + 1)),
    2 => Kind::Named { x: u8::gen(s, d), y: Option::gen(s, d + 1), a: u64::gen(s, d) }, 3 => Kind::One(Flat::gen(s, d + 1)), 4 => Kind::Zero(), _ => Kind::Last } } }

#[derive(Clone, Debug, PartialEq, ExpSerde)]
pub enum Rec { Leaf, Pair(Vec<Kind>, u8), Tagged { id: u32, kids: Vec<Kind> } }
impl Enc for Rec { fn enc(&self, o: &mut Vec<u8>) { match self { Rec::Leaf => 0u32.enc(o), Rec::Pair(k, v) => { 1u32.enc(o); k.enc(o); v.enc(o) } Rec::Tagged { id, kids } => { 2u32.enc(o); id.enc(o); kids.enc(o) } } } }
impl Gen for Rec { fn gen(s: &mut Src, d: usize) -> Self { if d > 4 { return Rec::Leaf } match s.below(3) { 0 => Rec::Leaf, 1 => Rec::Pair(Vec::gen(s, d + 1), u8::gen(s, d)), _ => Rec::Tagged { id: u32::gen(s, d), kids: Vec::gen(s, d + 1) } } } }

#[derive(Clone, Debug, PartialEq, ExpSerde)]
pub struct Par<A: ExpSerde, B> where B: ExpSerde { pub first: A, pub second: Vec<B>, pub n: u32 }
impl<A: Enc + ExpSerde, B: Enc + ExpSerde> Enc for Par<A, B> { fn enc(&self, o: &mut Vec<u8>) { self.first.enc(o); self.second.enc(o); self.n.enc(o) } }
impl<A: Gen + ExpSerde, B: Gen + ExpSerde> Gen for Par<A, B> { fn gen(s: &mut Src, d: usize) -> Self { Par { first: A::gen(s, d + 1), second: Vec::gen(s, d + 1), n: u32::gen(s, d) } } }
#[derive(Clone, Debug, PartialEq, ExpSerde)]
pub enum GenE<T: ExpSerde, const N: usize> { No, Yes(T, [u8; 4]), Both { t: T, v: Vec<T> } }
impl<T: Enc + ExpSerde, const N: usize> Enc for GenE<T, N> { fn enc(&self, o: &mut Vec<u8>) { match self { GenE::No => 0u32.enc(o), GenE::Yes(a, b) => { 1u32.enc(o); a.enc(o); b.enc(o) } GenE::Both { t, v } => { 2u32.enc(o); t.enc(o); v.enc(o) } } } }
impl<T: Gen + ExpSerde, const N: usize> Gen for GenE<T, N> { fn gen(s: &mut Src, d: usize) -> Self { match s.below(3) { 0 => GenE::No, 1 => GenE::Yes(T::gen(s, d + 1), <[u8; 4]>::gen(s, d)), _ => GenE::Both { t: T::gen(s, d + 1), v: Vec::gen(s, d + 1) } } } }

/// more variants than fit in a byte
#[derive(Clone, Copy, Debug, PartialEq, ExpSerde)]
pub enum Big { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269 }
pub const BIG: [Big; 270] = [Big::V0, Big::V1, Big::V2, Big::V3, Big::V4, Big::V5, Big::V6, Big::V7, Big::V8, Big::V9, Big::V10, Big::V11, Big::V12, Big::V13, Big::V14, Big::V15, Big::V16, Big::V17, Big::V18, Big::V19, Big::V20, Big::V21, Big::V22, Big::V23, Big::V24, Big::V25, Big::V26, Big::V27, Big::V28, Big::V29, Big::V30, Big::V31, Big::V32, Big::V33, Big::V34, Big::V35, Big::V36, Big::V37, Big::V38, Big::V39, Big::V40, Big::V41, Big::V42, Big::V43, Big::V44, Big::V45, Big::V46, Big::V47, Big::V48, Big::V49, Big::V50, Big::V51, Big::V52, Big::V53, Big::V54, Big::V55, Big::V56, Big::V57, Big::V58, Big::V59, Big::V60, Big::V61, Big::V62, Big::V63, Big::V64, Big::V65, Big::V66, Big::V67, Big::V68, Big::V69, Big::V70, Big::V71, Big::V72, Big::V73, Big::V74, Big::V75, Big::V76, Big::V77, Big::V78, Big::V79, Big::V80, Big::V81, Big::V82, Big::V83, Big::V84, Big::V85, Big::V86, Big::V87, Big::V88, Big::V89, Big::V90, Big::V91, Big::V92, Big::V93, Big::V94, Big::V95, Big::V96, Big::V97, Big::V98, Big::V99, Big::V100, Big::V101, Big::V102, Big::V103, Big::V104, Big::V105, Big::V106, Big::V107, Big::V108, Big::V109, Big::V110, Big::V111, Big::V112, Big::V113, Big::V114, Big::V115, Big::V116, Big::V117, Big::V118, Big::V119, Big::V120, Big::V121, Big::V122, Big::V123, Big::V124, Big::V125, Big::V126, Big::V127, Big::V128, Big::V129, Big::V130, Big::V131, Big::V132, Big::V133, Big::V134, Big::V135, Big::V136, Big::V137, Big::V138, Big::V139, Big::V140, Big::V141, Big::V142, Big::V143, Big::V144, Big::V145, Big::V146, Big::V147, Big::V148, Big::V149, Big::V150, Big::V151, Big::V152, Big::V153, Big::V154, Big::V155, Big::V156, Big::V157, Big::V158, Big::V159, Big::V160, Big::V161, Big::V162, Big::V163, Big::V164, Big::V165, Big::V166, Big::V167, Big::V168, Big::V169, Big::V170, Big::V171, Big::V172, Big::V173, Big::V174, Big::V175, Big::V176, Big::V177, Big::V178, Big::V179, Big::V180, Big::V181, Big::V182, Big::V183, Big::V184, Big::V185, Big::V186, Big::V187, Big::V188, Big::V189, Big::V190, Big::V191, Big::V192, Big::V193, Big::V194, Big::V195, Big::V196, Big::V197, Big::V198, Big::V199, Big::V200, Big::V201, Big::V202, Big::V203, Big::V204, Big::V205, Big::V206, Big::V207, Big::V208, Big::V209, Big::V210, Big::V211, Big::V212, Big::V213, Big::V214, Big::V215, Big::V216, Big::V217, Big::V218, Big::V219, Big::V220, Big::V221, Big::V222, Big::V223, Big::V224, Big::V225, Big::V226, Big::V227, Big::V228, Big::V229, Big::V230, Big::V231, Big::V232, Big::V233, Big::V234, Big::V235, Big::V236, Big::V237, Big::V238, Big::V239, Big::V240, Big::V241, Big::V242, Big::V243, Big::V244, Big::V245, Big::V246, Big::V247, Big::V248, Big::V249, Big::V250, Big::V251, Big::V252, Big::V253, Big::V254, Big::V255, Big::V256, Big::V257, Big::V258, Big::V259, Big::V260, Big::V261, Big::V262, Big::V263, Big::V264, Big::V265, Big::V266, Big::V267, Big::V268, Big::V269];
impl Enc for Big { fn enc(&self, o: &mut Vec<u8>) { (BIG.iter().position(|x| x == self).unwrap() as u32).enc(o) } }
impl Gen for Big { fn gen(s: &mut Src, _: usize) -> Self { BIG[s.below(270)] } }
shape!(struct Wide { r#type: u8, f1: u16x, f2: u32, f3: u64, f4: u8, f5: bool, f6: u32, f7: Vec<u8>, f8: u8, f9: Option<u8>, f10: u32, f11: String, f12: Big, f13: u64, f14: u8, f15: (u8, u8), f16: u32, f17: bool, f18: usize, f19: u128 });
type u16x = [u8; 2];

/// hands out at most `k` bytes per call
struct Drip<'a>(&'a [u8], usize);
impl Read for Drip<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
struct Full(usize);
impl Write for Full { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.0); self.0 -= n; Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }

fn de<T: ExpSerde>(b: &[u8]) -> Result<SerdeResult<T>, String> { no_panic(|| T::deserialize_from(b)) }

fn layout<T: ExpSerde + Enc + Gen + PartialEq + std::fmt::Debug>(s: &mut Src) -> R {
    let x = T::gen(s, 0);
    let mut want = vec![];
    x.enc(&mut want);
    let mut got = vec![];
    x.serialize_into(&mut got).map_err(|e| format!("serialize failed: {e}"))?;
    ensure!(got == want, "layout of {}\n got  {got:x?}\n want {want:x?}", clip(format!("{x:?}")));
    s.nontrivial();
    let tail = s.blob(3);
    let all = [got.clone(), tail.clone()].concat();
    let mut cur = &all[..];
    let y = T::deserialize_from(&mut cur).map_err(|e| format!("own bytes rejected: {e}: {}", clip(format!("{x:?}"))))?;
    ensure!(y == x, "read back {} instead of {}", clip(format!("{y:?}")), clip(format!("{x:?}")));
    ensure!(cur == &tail[..], "reading a value consumed {} bytes of {}", all.len() - cur.len(), got.len());
    let y = T::deserialize_from(Drip(&got, 1 + s.below(3))).map_err(|e| format!("a reader with short reads is rejected: {e}"))?;
    ensure!(y == x, "a reader with short reads yields another value");
    if !got.is_empty() {
        let k = s.below(got.len());
        ensure!(de::<T>(&got[..k]).map_err(|e| format!("{k} of {} bytes: panic {e}", got.len()))?.is_err(), "{k} of {} bytes accepted as {}", got.len(), clip(format!("{x:?}")));
        ensure!(x.serialize_into(Full(k)).is_err(), "a writer that takes only {k} of {} bytes is not reported", got.len());
        // damage: an error, or some value whose bytes are a prefix of what was given
        let mut g = got.clone();
        for _ in 0..1 + s.below(3) { let i = s.below(g.len()); g[i] = if s.bool() { 0xff } else { s.draw(255) as u8 }; }
        if let Ok(v) = de::<T>(&g).map_err(|e| format!("bytes {g:x?}: panic {e}"))? {
            let mut b = vec![];
            v.serialize_into(&mut b).unwrap();
            let mut w = vec![];
            v.enc(&mut w);
            ensure!(b == w && b.len() <= g.len(), "damaged bytes read as a value with the wrong layout");
            s.label("damaged bytes accepted");
        } else { s.label("damaged bytes refused"); }
    }
    Ok(())
}

fn variants(s: &mut Src) -> R {
    let i = match s.below(3) { 0 => 6 + s.draw(5) as u32, 1 => u32::MAX - s.draw(3) as u32, _ => 0x0100_0000u32 << s.below(8) };
    let mut b = vec![];
    i.enc(&mut b);
    b.extend(vec![0u8; 400]);
    s.nontrivial();
    if i >= 6 { ensure!(de::<Kind>(&b).map_err(|e| format!("variant {i}: panic {e}"))?.is_err(), "variant index {i} accepted for an enum of 6"); }
    if i >= 3 { ensure!(de::<Rec>(&b).map_err(|e| format!("variant {i}: panic {e}"))?.is_err(), "variant index {i} accepted for an enum of 3"); }
    Ok(())
}

fn maps(s: &mut Src) -> R {
    let n = s.usize_in(0, 12);
    let m: HashMap<u32, Vec<u8>> = (0..n).map(|_| (s.draw(20) as u32, { let k = s.below(4); s.blob(k) })).collect();
    if m.len() > 1 { s.nontrivial(); }
    let mut b = vec![];
    m.serialize_into(&mut b).unwrap();
    // layout: count, then the entries in any order
    let mut cur = &b[..];
    ensure_eq!(u64::deserialize_from(&mut cur).unwrap(), m.len() as u64, "entry count");
    let mut seen = BTreeMap::new();
    for _ in 0..m.len() { let (k, v) = <(u32, Vec<u8>)>::deserialize_from(&mut cur).map_err(|e| format!("entry: {e}"))?; seen.insert(k, v); }
    ensure!(cur.is_empty() && seen == m.clone().into_iter().collect(), "serialized entries are not the map's");
    let back = HashMap::<u32, Vec<u8>>::deserialize_from(&b[..]).map_err(|e| format!("own bytes rejected: {e}"))?;
    ensure!(back == m, "map read back differs");
    if !b.is_empty() { let k = s.below(b.len()); ensure!(de::<HashMap<u32, Vec<u8>>>(&b[..k])?.is_err(), "truncated map accepted"); }
    Ok(())
}

/// Length prefixes that promise more than there is must be errors, not crashes.
fn lengths(s: &mut Src) -> R {
    let n = match s.below(4) { 0 => u64::MAX - s.draw(9), 1 => (1u64 << 63) + s.draw(9), 2 => (1 << 62) + s.draw(100), _ => 200 + s.draw(5000) };
    let mut b = vec![];
    n.enc(&mut b);
    b.extend(s.blob(100));
    s.nontrivial();
    macro_rules! t { ($($t:ty),*) => { $( ensure!(de::<$t>(&b).map_err(|e| format!("{} with a length prefix of {n}: panic {e}", stringify!($t)))?.is_err(), "{} of {n} entries read from 100 bytes", stringify!($t)); )* } }
    t!(Vec<u8>, Vec<u32>, String, Vec<String>, HashMap<u32, u32>, HashMap<u64, String>, Vec<Vec<u64>>, One);
    let bad = [vec![1, 0, 0, 0, 0, 0, 0, 0], vec![*s.pick(&[0xffu8, 0xc0, 0x80, 0xfe])]].concat();
    ensure!(de::<String>(&bad)?.is_err(), "invalid UTF-8 accepted");
    Ok(())
}

pub fn c27() -> Check {
    let c = Check::new("C27", "exploration", "values of 18 types (numbers, strings, options, arrays, vectors, pairs, maps, derived structs and enums, nested and generic) with edge-biased leaves; non-trivial: the value was encoded and compared with an independent encoder");
    macro_rules! l { ($c:expr, [$($t:ty),*]) => { { let mut c = $c; $( c = c.prop(concat!("layout:", stringify!($t)), 1500, 30000, layout::<$t>); )* c } } }
    let c = l!(c, [Big, Wide, Flat, Zlast, Nest, One, Arrs, WithEnum, Kind, Rec, Par<u8, u32>, Par<Kind, Vec<bool>>, GenE<u32, 3>, GenE<Zlast, 0>, Vec<(u32, String)>, Option<Vec<u128>>, (Empty, f64), [[u32; 2]; 3]]);
    c.prop("unknown variants", 500, 5000, variants).prop("maps", 1500, 30000, maps).prop("length prefixes", 500, 5000, lengths)
}
