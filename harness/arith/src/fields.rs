use crate::model::*;
use arith::*;
use babybear::*;
use ethnum::U256;
use gf2::*;
use gf2_128::*;
use goldilocks::*;
use halo2curves::bn256::Fr;
use mersenne31::*;
use pbt::*;
use serdes::ExpSerde;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn show(v: &[U256]) -> String { clip(format!("{v:?}")) }

fn same<F: Fl>(x: &F, m: &[U256], what: &str) -> R {
    let got = x.flat();
    ensure!(got == m, "{}: {what}\n got  {}\n want {}", F::NAME, show(&got), show(m));
    let y = F::build(m);
    ensure!(*x == y, "{}: {what}: result is not equal to the same value built from its coefficients {}", F::NAME, show(m));
    ensure!(x.is_zero() == m.iter().all(|c| *c == U256::ZERO), "{}: {what}: is_zero is wrong for {}", F::NAME, show(m));
    Ok(())
}

fn h<T: Hash>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn ser<T: ExpSerde>(x: &T) -> Vec<u8> { let mut v = vec![]; x.serialize_into(&mut v).unwrap(); v }

/// C23: random programs over four registers, the model stepped alongside.
pub fn program<F: Fl>(s: &mut Src) -> R {
    let mut m: Vec<Vec<U256>> = vec![];
    let mut r: Vec<F> = vec![];
    for _ in 0..3 {
        let o = if s.chance(1, 3) { F::odd(s) } else { None };
        let (x, c) = match o { Some(v) => { s.label("non-canonical start"); v } None => { let c = gen_flat::<F>(s); (F::build(&c), c) } };
        same(&x, &c, "building an element from its coefficients")?;
        r.push(x);
        m.push(c);
    }
    let n = s.usize_in(1, if F::LANES * F::DEG > 64 { 8 } else { 24 });
    s.nontrivial();
    for _ in 0..n {
        let (i, j, k) = (s.below(3), s.below(3), s.below(3));
        let (a, b) = (r[i], r[j]);
        let (ma, mb) = (m[i].clone(), m[j].clone());
        let op = s.below(22);
        let small = |c: u64| -> Vec<U256> { one::<F>().iter().map(|x| *x * U256::from(c) % F::p()).collect() };
        let zero = vec![U256::ZERO; F::LANES * F::DEG];
        let (x, mx, what): (F, Vec<U256>, &str) = match op {
            0 => (a + b, m_add::<F>(&ma, &mb), "a + b"),
            1 => (a - b, m_sub::<F>(&ma, &mb), "a - b"),
            2 => (a * b, m_mul::<F>(&ma, &mb), "a * b"),
            3 => (-a, m_sub::<F>(&zero, &ma), "-a"),
            4 => (a.double(), m_add::<F>(&ma, &ma), "double"),
            5 => (a.square(), m_mul::<F>(&ma, &ma), "square"),
            6 => (a.mul_by_2(), m_add::<F>(&ma, &ma), "mul_by_2"),
            7 => (a.mul_by_3(), m_mul::<F>(&ma, &small(3)), "mul_by_3"),
            8 => (a.mul_by_5(), m_mul::<F>(&ma, &small(5)), "mul_by_5"),
            9 => (a.mul_by_6(), m_mul::<F>(&ma, &small(6)), "mul_by_6"),
            10 => { let mut t = a; t += b; (t, m_add::<F>(&ma, &mb), "a += b") }
            11 => { let mut t = a; t -= &b; (t, m_sub::<F>(&ma, &mb), "a -= &b") }
            12 => { let mut t = a; t *= &b; (t, m_mul::<F>(&ma, &mb), "a *= &b") }
            13 => { let mut t = a; t += &b; t -= b; t *= b; (t, m_mul::<F>(&ma, &mb), "a += &b, -= b, *= b") }
            14 => (a + &b, m_add::<F>(&ma, &mb), "a + &b"),
            15 => (a * &b - &b, m_sub::<F>(&m_mul::<F>(&ma, &mb), &mb), "a * &b - &b"),
            16 => (r.iter().sum(), m.iter().fold(zero.clone(), |x, y| m_add::<F>(&x, y)), "sum"),
            17 => (r.clone().into_iter().product(), m.iter().fold(one::<F>(), |x, y| m_mul::<F>(&x, y)), "product"),
            18 => { let e = match s.below(3) { 0 => s.draw(20) as u128, 1 => s.u64_any() as u128, _ => (s.u64_any() as u128) << 64 | s.u64_any() as u128 };
                    (a.exp(e), m_pow::<F>(&ma, e), "exp") }
            19 => { let l = s.usize_in(0, 9); (a.exp_power_of_2(l), m_pow::<F>(&ma, 1 << l), "exp_power_of_2") }
            20 if F::inv2().is_some() => (F::inv2().unwrap() * a, { let inv2 = (F::p() + U256::ONE) >> 1u32; ma.iter().map(|x| mulm(*x, inv2, F::p())).collect() }, "INV_2 * a"),
            _ if F::HAS_INV => {
                let zl = ma.chunks(F::DEG).filter(|c| c.iter().all(|x| *x == U256::ZERO)).count();
                match a.inv() {
                    None => { ensure!(zl > 0, "{}: inv of an element with no zero lane is None: {}", F::NAME, show(&ma)); continue; }
                    Some(y) => {
                        ensure!(zl < F::LANES, "{}: zero has an inverse", F::NAME);
                        let fy = y.flat();
                        for (x, v) in ma.chunks(F::DEG).zip(fy.chunks(F::DEG)) {
                            if x.iter().any(|c| *c != U256::ZERO) {
                                let pr = F::lane_mul(x, v);
                                ensure!(pr[0] == U256::ONE && pr[1..].iter().all(|c| *c == U256::ZERO), "{}: a * inv(a) = {} for a = {}", F::NAME, show(&pr), show(x));
                            }
                        }
                        s.label("inverse");
                        (y, fy, "inv")
                    }
                }
            }
            _ => (a, ma, "copy"),
        };
        same(&x, &mx, what)?;
        // equal elements are indistinguishable
        let y = F::build(&mx);
        ensure!(h(&x) == h(&y), "{}: {what}: equal elements hash differently ({})", F::NAME, show(&mx));
        if F::HAS_ORD {
            ensure!(x.cmp(&y).is_eq(), "{}: {what}: cmp of equal elements is not Equal", F::NAME);
            ensure!((x.cmp(&b).is_eq()) == (mx == mb) && x.cmp(&b) == b.cmp(&x).reverse(), "{}: {what}: cmp disagrees with equality or is not antisymmetric", F::NAME);
        }
        ensure!((x == b) == (mx == mb), "{}: equality of {} and {} is wrong", F::NAME, show(&mx), show(&mb));
        r[k] = x;
        m[k] = mx;
    }
    Ok(())
}

macro_rules! all { ($c:expr, $f:ident, $pre:expr, $q:expr, $t:expr, [$($ty:ty),*]) => { { let mut c = $c; $( c = c.prop(concat!($pre, stringify!($ty)), $q, $t, $f::<$ty>); )* c } } }

pub fn c23() -> Check {
    let c = Check::new("C23", "exploration", "straight-line programs of 1-24 field operations over registers that start from edge-biased elements (0, 1, p-1, powers of two, non-canonical machine representations), stepped next to an integer/polynomial model; every program is non-trivial: it performs at least one operation and every intermediate result is compared")
        .assume("BN254 scalar arithmetic itself comes from a stand-in for the halo2curves crate; what is checked for it is the repository's wrapper");
    let c = all!(c, program, "arith:", 120000, 480000, [M31, BabyBear, Goldilocks, GF2, M31Ext3, M31Ext6, BabyBearExt3, GoldilocksExt2, GoldilocksExt3, GoldilocksExt4, GoldilocksExt2Scalar]);
    all!(c, program, "arith:", 24000, 96000, [Fr, GF2_128])
}
pub fn c24() -> Check {
    let c = Check::new("C24", "exploration", "straight-line programs of packed-field operations with independent edge-biased lanes, plus pack/unpack, scaling, horizontal sums and base-field products, and mixed packed-base/packed-extension operations; every program is non-trivial: lanes are compared one by one against scalar results of the model");
    let c = all!(c, program, "lanes:", 32000, 128000, [M31x16, M31Ext3x16, BabyBearx16, BabyBearExt3x16, Goldilocksx8, GoldilocksExt2x8, GF2x8, GF2x64, GF2x128, FrxN<4>]);
    let c = all!(c, program, "lanes:", 4800, 19200, [GF2_128x8]);
    let c = all!(c, simd, "pack:", 32000, 128000, [M31x16, M31Ext3x16, BabyBearx16, BabyBearExt3x16, Goldilocksx8, GoldilocksExt2x8, GF2x8, GF2x64, GF2x128, GF2_128x8, FrxN<4>, M31, M31Ext3, Goldilocks, GoldilocksExt2, GoldilocksExt3, GoldilocksExt4, Fr]);
    let c = all!(c, extf, "limbs:", 32000, 128000, [M31Ext3, M31Ext6, BabyBearExt3, GoldilocksExt2, GoldilocksExt3, GoldilocksExt4, M31Ext3x16, BabyBearExt3x16, GoldilocksExt2x8, GF2_128]);
    all!(c, ext_lanes, "ext-lanes:", 32000, 128000, [M31Ext3x16, BabyBearExt3x16, GoldilocksExt2x8, GF2_128x8])
}

/// packed extension over packed base field: lane i of every mixed operation uses lane i of the base operand
fn ext_lanes<F: Fl + SimdField + ExtensionField>(s: &mut Src) -> R
where F::BaseField: Fl + SimdField, F::Scalar: Fl + ExtensionField<BaseField = <F::BaseField as SimdField>::Scalar>, <F::BaseField as SimdField>::Scalar: Fl {
    let n = F::PACK_SIZE;
    ensure!(<F::BaseField as SimdField>::PACK_SIZE == n, "{}: packs {} lanes, its base field {}", F::NAME, n, <F::BaseField as SimdField>::PACK_SIZE);
    let xs: Vec<F::Scalar> = (0..n).map(|_| F::Scalar::build(&gen_flat::<F::Scalar>(s))).collect();
    let bs: Vec<<F::BaseField as SimdField>::Scalar> = (0..n).map(|_| <F::BaseField as SimdField>::Scalar::build(&gen_flat::<<F::BaseField as SimdField>::Scalar>(s))).collect();
    s.nontrivial();
    let (x, b) = (F::pack(&xs), F::BaseField::pack(&bs));
    let lanes = |op: &str, got: F, f: &dyn Fn(&F::Scalar, &<F::BaseField as SimdField>::Scalar) -> F::Scalar| -> R {
        for (i, g) in got.unpack().iter().enumerate() { ensure!(*g == f(&xs[i], &bs[i]), "{}: {op}: lane {i} differs from the scalar operation", F::NAME); }
        Ok(())
    };
    lanes("From<BaseField>", F::from(b), &|_, b| F::Scalar::from(*b))?;
    lanes("mul_by_base_field", x.mul_by_base_field(&b), &|x, b| x.mul_by_base_field(b))?;
    lanes("add_by_base_field", x.add_by_base_field(&b), &|x, b| x.add_by_base_field(b))?;
    lanes("mul_by_x", x.mul_by_x(), &|x, _| x.mul_by_x())?;
    let l = x.to_limbs();
    let sl: Vec<Vec<_>> = xs.iter().map(|x| x.to_limbs()).collect();
    ensure!(l.len() == sl[0].len(), "{}: {} limbs, the scalar has {}", F::NAME, l.len(), sl[0].len());
    for (k, limb) in l.iter().enumerate() {
        for (i, v) in limb.unpack().iter().enumerate() { ensure!(*v == sl[i][k], "{}: to_limbs: limb {k}, lane {i} differs from the scalar's limb", F::NAME); }
    }
    ensure!(F::from_limbs(&l) == x, "{}: from_limbs(to_limbs(x)) != x", F::NAME);
    Ok(())
}

fn simd<F: Fl + SimdField>(s: &mut Src) -> R where F::Scalar: Fl {
    let lanes: Vec<Vec<U256>> = (0..F::PACK_SIZE).map(|_| gen_flat::<F::Scalar>(s)).collect();
    let sc: Vec<F::Scalar> = lanes.iter().map(|l| F::Scalar::build(l)).collect();
    s.nontrivial();
    let v = F::pack(&sc);
    ensure!(v.unpack() == sc, "{}: unpack(pack(x)) != x", F::NAME);
    let e = gen_flat::<F::Scalar>(s);
    let es = F::Scalar::build(&e);
    let got = v.scale(&es).unpack();
    for i in 0..F::PACK_SIZE { ensure!(got[i].flat() == m_mul::<F::Scalar>(&lanes[i], &e), "{}: scale: lane {i} is wrong", F::NAME); }
    ensure!(F::pack_full(&es).unpack() == vec![es; F::PACK_SIZE], "{}: pack_full does not fill every lane", F::NAME);
    ensure!(F::from(es).unpack() == vec![es; F::PACK_SIZE], "{}: From<Scalar> does not fill every lane", F::NAME);
    let hs = v.horizontal_sum().flat();
    let want = lanes.iter().fold(vec![U256::ZERO; e.len()], |a, b| m_add::<F::Scalar>(&a, b));
    ensure!(hs == want, "{}: horizontal_sum\n got  {}\n want {}", F::NAME, show(&hs), show(&want));
    let u = if F::Scalar::p() == U256::new(2) { s.draw(1) as u32 } else { s.u64_any() as u32 };
    let got = F::from(u).unpack();
    for (i, g) in got.iter().enumerate() { ensure!(*g == F::Scalar::from(u), "{}: From<u32>({u}): lane {i} differs from the scalar conversion", F::NAME); }
    ensure!(F::zero().unpack().iter().all(|x| x.is_zero()) && F::ZERO.is_zero() && F::ONE.unpack() == vec![F::Scalar::ONE; F::PACK_SIZE] && F::one() == F::ONE, "{}: constants are wrong", F::NAME);
    Ok(())
}

fn extf<F: Fl + ExtensionField>(s: &mut Src) -> R where F::BaseField: Fl {
    let a = gen_flat::<F>(s);
    let x = F::build(&a);
    let bm = gen_flat::<F::BaseField>(s);
    let b = F::BaseField::build(&bm);
    s.nontrivial();
    let l = x.to_limbs();
    ensure!(l.len() == F::DEGREE, "{}: to_limbs has {} entries", F::NAME, l.len());
    ensure!(F::from_limbs(&l) == x, "{}: from_limbs(to_limbs(x)) != x", F::NAME);
    let e = F::from(b);
    let el = e.to_limbs();
    ensure!(el[0] == b && el[1..].iter().all(|x| x.is_zero()), "{}: From<BaseField> is not the constant polynomial", F::NAME);
    same(&x.mul_by_base_field(&b), &m_mul::<F>(&a, &e.flat()), "mul_by_base_field")?;
    same(&x.add_by_base_field(&b), &m_add::<F>(&a, &e.flat()), "add_by_base_field")?;
    ensure!(x.mul_by_base_field(&b) == x * e && x.add_by_base_field(&b) == x + e, "{}: base-field shortcut differs from the full operation", F::NAME);
    ensure!(x.mul_by_x() == x * F::X, "{}: mul_by_x(x) != x * X for {}", F::NAME, show(&a));
    let xl = F::X.to_limbs();
    ensure!(xl[0].is_zero() && xl[1] == F::BaseField::ONE && xl[2..].iter().all(|v| v.is_zero()), "{}: X is not x", F::NAME);
    // x^DEGREE = W for the binomial extensions
    if F::p() != U256::new(2) {
        let mut w = F::ONE;
        for _ in 0..F::DEGREE { w = w * F::X; }
        ensure!(w == F::from(F::W) , "{}: X^DEGREE != W", F::NAME);
    }
    // limbs of a short vector are the low coefficients
    let k = s.usize_in(0, F::DEGREE);
    let y = no_panic(|| F::from_limbs(&l[..k])).map_err(|e| format!("{}: from_limbs of {k} limbs panics: {e}", F::NAME));
    if let Ok(y) = y {
        let yl = y.to_limbs();
        ensure!(yl[..k] == l[..k] && yl[k..].iter().all(|v| v.is_zero()), "{}: from_limbs of {k} limbs", F::NAME);
    }
    Ok(())
}

// ------------------------------------------------------------ C25: conversions and bytes

fn bytes<F: Fl>(s: &mut Src) -> R {
    let (x, m) = match if s.bool() { F::odd(s) } else { None } { Some(v) => v, None => { let c = gen_flat::<F>(s); (F::build(&c), c) } };
    s.nontrivial();
    let b = ser(&x);
    ensure!(b.len() == F::SIZE, "{}: SIZE is {} but the element serializes to {} bytes", F::NAME, F::SIZE, b.len());
    ensure!(ser(&F::build(&m)) == b, "{}: equal elements {} serialize differently", F::NAME, show(&m));
    let mut cur = &b[..];
    let y = F::deserialize_from(&mut cur).map_err(|e| format!("{}: own bytes rejected: {e}", F::NAME))?;
    ensure!(cur.is_empty(), "{}: deserialization left {} bytes", F::NAME, cur.len());
    same(&y, &m, "deserialize(serialize(x))")?;
    let k = s.below(b.len());
    ensure!(F::deserialize_from(&b[..k]).is_err(), "{}: {k} of {} bytes accepted", F::NAME, b.len());
    let mut t = vec![0u8; F::SIZE];
    x.to_bytes(&mut t);
    ensure!(t == b, "{}: to_bytes differs from serialize", F::NAME);
    let mut z = F::ZERO;
    z.set_in_bytes(&t);
    same(&z, &m, "set_in_bytes(to_bytes(x))")?;
    // arbitrary bytes: rejected, or read as an element that behaves
    let g = match s.below(3) { 0 => vec![0xff; F::SIZE], 1 => s.blob(F::SIZE), _ => { let mut g = b.clone(); let i = s.below(g.len()); g[i] = s.draw(255) as u8; g } };
    if let Ok(v) = no_panic(|| F::deserialize_from(&g[..])).map_err(|e| format!("{}: deserializing {g:x?} panics: {e}", F::NAME))? {
        s.label("arbitrary bytes accepted");
        let c = v.flat();
        ensure!(c.iter().all(|x| *x < F::p()), "{}: bytes {g:x?} read as out-of-range coefficients", F::NAME);
        same(&v, &c, "element read from arbitrary bytes")?;
        same(&(v * v), &m_mul::<F>(&c, &c), "square of an element read from arbitrary bytes")?;
        same(&(v + v), &m_add::<F>(&c, &c), "double of an element read from arbitrary bytes")?;
        same(&(F::ZERO - v), &m_sub::<F>(&vec![U256::ZERO; c.len()], &c), "negation of an element read from arbitrary bytes")?;
        let again = F::deserialize_from(&ser(&v)[..]).map_err(|e| format!("{}: element read from {g:x?} serializes to bytes that are rejected: {e}", F::NAME))?;
        ensure!(F::p() == U256::new(2) || ser(&v) == g, "{}: bytes {g:x?} are accepted but are not the encoding {:x?} of the element they read as", F::NAME, ser(&v));
        ensure!(again == v, "{}: element read from {g:x?} does not survive its own serialization", F::NAME);
    }
    Ok(())
}

fn ints<F: Fl>(s: &mut Src) -> R {
    s.nontrivial();
    let p = F::p();
    let u = match s.below(4) { 0 => u32::MAX - s.draw(4) as u32, 1 => (p.as_u32()).wrapping_add(s.draw(5) as u32).wrapping_sub(2), 2 => (1u32 << 31).wrapping_add(s.draw(5) as u32).wrapping_sub(2), _ => s.u64_any() as u32 };
    let u = if p == U256::new(2) && F::LANES > 1 { u % 2 } else { u }; // packed GF2 documents (asserts) a bit
    let mut want = vec![U256::ZERO; F::LANES * F::DEG];
    for l in 0..F::LANES { want[l * F::DEG] = U256::from(u) % p; }
    same(&F::from(u), &want, &format!("From<u32>({u})"))?;
    if F::LANES * F::DEG == 1 {
        let v = match s.below(4) {
            0 => U256::MAX - U256::from(s.draw(4)),
            1 => { let k = U256::from(s.draw(5)); p * k + U256::from(s.draw(3)) }
            2 => U256::ONE << s.draw(255) as u32,
            _ => U256::from_words((s.u64_any() as u128) << 64 | s.u64_any() as u128, (s.u64_any() as u128) << 64 | s.u64_any() as u128),
        };
        let x = no_panic(|| F::from_u256(v)).map_err(|e| format!("{}: from_u256({v}) panics: {e}", F::NAME))?;
        same(&x, &[v % p], &format!("from_u256({v})"))?;
        ensure!(x.to_u256() == v % p, "{}: to_u256(from_u256({v})) = {}", F::NAME, x.to_u256());
    }
    let mut rng = rand::rngs::mock::StepRng::new(s.u64_any(), s.u64_any());
    let b = F::random_bool(&mut rng).flat();
    for l in b.chunks(F::DEG) { ensure!(l[0] <= U256::ONE && l[1..].iter().all(|c| *c == U256::ZERO), "{}: random_bool is not 0 or 1: {}", F::NAME, show(&b)); }
    let r = F::random_unsafe(&mut rng);
    let c = r.flat();
    ensure!(c.iter().all(|x| *x < p), "{}: random element out of range", F::NAME);
    same(&r, &c, "random element")
}

fn uniform<F: Fl>(s: &mut Src) -> R {
    s.nontrivial();
    // challenge derivation: total, in range, deterministic, and reaching the whole word range
    let mut by = s.blob(64);
    if s.chance(1, 4) { by = vec![0xff; 64]; }
    let x = no_panic(|| F::from_uniform_bytes(&by)).map_err(|e| format!("{}: from_uniform_bytes panics on {by:x?}: {e}", F::NAME))?;
    let c = x.flat();
    ensure!(c.iter().all(|v| *v < F::p()), "{}: from_uniform_bytes out of range", F::NAME);
    same(&x, &c, "from_uniform_bytes")?;
    // it behaves like the element with these coefficients, not only looks like it
    let y = F::build(&c);
    let o = F::from_uniform_bytes(&s.blob(64));
    let q = F::build(&o.flat());
    let forms = |a: F, b: F| -> Vec<F> { vec![-a, a + b, a - b, F::ZERO - a, a * b, a.double(), a.square(), a + a + a, F::ONE - a * a] };
    let u = no_panic(|| forms(x, o)).map_err(|e| format!("{}: arithmetic on from_uniform_bytes({by:x?}) panics: {e}", F::NAME))?;
    for (k, (a, b)) in u.iter().zip(forms(y, q)).enumerate() { ensure!(*a == b && a.flat() == b.flat(), "{}: operation {k} on from_uniform_bytes({by:x?}) differs from the same operation on the element it equals", F::NAME); }
    ensure!(F::from_uniform_bytes(&by) == x, "{}: from_uniform_bytes is not deterministic", F::NAME);
    // every coefficient depends on the bytes and reaches the whole field: all eighths of [0, p), all bit values
    let mut seen: Vec<(std::collections::HashSet<U256>, u8, U256, U256)> = vec![(Default::default(), 0, U256::ZERO, U256::ZERO); c.len()];
    let mut g = SplitMix(s.u64_any());
    let two = F::p() == U256::new(2);
    for _ in 0..224 {
        let b: Vec<u8> = (0..64).map(|_| g.next() as u8).collect();
        for (z, v) in seen.iter_mut().zip(F::from_uniform_bytes(&b).flat()) {
            z.0.insert(v);
            z.1 |= 1 << (v / (F::p() / U256::new(8) + U256::ONE)).as_u32();
            z.2 |= v;
            z.3 |= F::p() ^ v;
        }
    }
    for (i, z) in seen.iter().enumerate() {
        ensure!(z.0.len() >= if two { 2 } else { 200 }, "{}: coefficient {i} of a challenge takes only {} values over 224 random inputs", F::NAME, z.0.len());
        if two { continue; }
        ensure!(z.1 == 0xff, "{}: coefficient {i} of a challenge never lies in some eighth of the field (reached: {:08b})", F::NAME, z.1);
        let all = (U256::ONE << (256 - F::p().leading_zeros())) - U256::ONE;
        ensure!(z.2 == all && z.3 == all, "{}: coefficient {i} of a challenge has a bit that never changes ({:x} / {:x})", F::NAME, z.2, z.3);
    }
    Ok(())
}

pub fn c25() -> Check {
    let c = Check::new("C25", "exploration", "edge-biased elements (including non-canonical representations), arbitrary and truncated byte strings, integers around multiples of p and machine-word limits; every case is non-trivial: it compares at least one conversion against the integer model");
    let c = all!(c, bytes, "bytes:", 64000, 256000, [M31, BabyBear, Goldilocks, GF2, M31Ext3, M31Ext6, BabyBearExt3, GoldilocksExt2, GoldilocksExt3, GoldilocksExt4, GoldilocksExt2Scalar, Fr]);
    let c = all!(c, bytes, "bytes:", 16000, 64000, [GF2_128, M31x16, M31Ext3x16, BabyBearx16, BabyBearExt3x16, Goldilocksx8, GoldilocksExt2x8, GF2x8, GF2x64, GF2x128, FrxN<4>]);
    let c = all!(c, ints, "ints:", 64000, 256000, [M31, BabyBear, Goldilocks, GF2, M31Ext3, M31Ext6, BabyBearExt3, GoldilocksExt2, GoldilocksExt3, GoldilocksExt4, Fr, M31x16, BabyBearx16, Goldilocksx8, GF2x8, GF2x64, GF2x128, GoldilocksExt2x8, M31Ext3x16, BabyBearExt3x16]);
    all!(c, uniform, "challenge:", 2400, 10000, [M31Ext3, BabyBearExt3, GoldilocksExt2, GoldilocksExt3, GoldilocksExt4, GoldilocksExt2Scalar, Fr, GF2_128, M31, BabyBear, Goldilocks, M31Ext6])
}

// ------------------------------------------------------------ C26: FFT and bit reversal

fn fft<F: Fl + FFTField>(s: &mut Src) -> R {
    let log = s.usize_in(0, 6);
    let n = 1usize << log;
    let k = s.usize_in(1, n);
    let mut c: Vec<F> = (0..k).map(|_| F::build(&gen_flat::<F>(s))).collect();
    c.resize(n, F::ZERO);
    if n > 1 { s.nontrivial(); }
    let w = F::two_adic_generator(log);
    let ev = F::fft(&c);
    let mut x = F::ONE;
    for i in 0..n {
        let want = c.iter().rev().fold(F::ZERO, |a, b| a * x + *b);
        ensure!(ev[i] == want, "{}: fft of {n} coefficients: entry {i} is not the evaluation at w^{i}", F::NAME);
        x = x * w;
    }
    ensure!(x == F::ONE, "{}: w^{n} != 1", F::NAME);
    ensure!(F::ifft(&ev) == c, "{}: ifft(fft(c)) != c for n = {n}", F::NAME);
    ensure!(F::fft(&F::ifft(&c)) == c, "{}: fft(ifft(e)) != e for n = {n}", F::NAME);
    let mut ip = c.clone();
    F::fft_in_place(&mut ip);
    ensure!(ip == ev, "{}: in-place fft differs", F::NAME);
    F::ifft_in_place(&mut ip);
    ensure!(ip == c, "{}: in-place ifft differs", F::NAME);
    // the generator of every supported size has exactly that order
    let b = s.usize_in(0, F::TWO_ADICITY);
    let g = F::two_adic_generator(b);
    ensure!(g.exp_power_of_2(b) == F::ONE, "{}: generator for 2^{b} has a larger order", F::NAME);
    if b > 0 { ensure!(g.exp_power_of_2(b - 1) == F::ZERO - F::ONE, "{}: generator for 2^{b} has a smaller order", F::NAME); }
    Ok(())
}
fn bitrev(s: &mut Src) -> R {
    let w = s.usize_in(1, 63);
    let x = (s.u64_any() as usize) & ((1usize << w) - 1);
    s.nontrivial();
    let mut want = 0usize;
    for i in 0..w { if x >> i & 1 == 1 { want |= 1 << (w - 1 - i); } }
    let got = arith::bit_reverse(x, w);
    ensure!(got == want, "bit_reverse({x:#x}, {w}) = {got:#x}, want {want:#x}");
    Ok(())
}
pub fn c26() -> Check {
    let c = Check::new("C26", "exploration", "polynomials of 1-64 edge-biased coefficients and every supported two-adic size; non-trivial: more than one coefficient");
    let c = all!(c, fft, "fft:", 16000, 64000, [Goldilocks, GoldilocksExt2, GoldilocksExt3, GoldilocksExt4, GoldilocksExt2Scalar, BabyBear, BabyBearExt3, M31Ext6, Fr]);
    let c = all!(c, fft, "fft:", 2400, 9600, [BabyBearx16, BabyBearExt3x16, GoldilocksExt2x8, Goldilocksx8]);
    c.prop("bit reversal", 32000, 200000, bitrev)
}
