//! C30: Fiat-Shamir hashers and transcripts. Hash oracles are written from the definitions on plain integers;
//! the transcript is stepped next to a model and also compared with itself after one earlier byte changed.
use crate::model::*;
use arith::*;
use babybear::*;
use ethnum::U256;
use gf2_128::*;
use gkr_engine::{ExpanderDualVarChallenge, ExpanderSingleVarChallenge, Transcript};
use gkr_hashers::*;
use goldilocks::*;
use halo2curves::bn256::Fr;
use mersenne31::*;
use pbt::*;
use serdes::ExpSerde;
use sha2::Digest;
use tiny_keccak::{Hasher, Keccak};
use transcript::*;

type Sha = SHA256hasher;
type Kec = Keccak256hasher;
type Mimc = MiMC5FiatShamirHasher<Fr>;
type Pos = PoseidonFiatShamirHasher<M31x16>;

fn keccak(d: &[u8]) -> [u8; 32] { let mut h = Keccak::v256(); h.update(d); let mut o = [0u8; 32]; h.finalize(&mut o); o }
fn le(b: &[u8]) -> U256 { let mut x = [0u8; 32]; x[..b.len()].copy_from_slice(b); U256::from_le_bytes(x) }

pub trait Ref { fn refhash(d: &[u8]) -> Vec<u8>; }
impl Ref for Sha { fn refhash(d: &[u8]) -> Vec<u8> { sha2::Sha256::digest(d).to_vec() } }
impl Ref for Kec { fn refhash(d: &[u8]) -> Vec<u8> { keccak(d).to_vec() } }
thread_local! {
    static MC: Vec<U256> = { let mut h = keccak(b"seed"); (0..110).map(|_| { h = keccak(&h); let mut r = h; r.reverse(); le(&r) % bn_p() }).collect() };
    static PC: Vec<[u64; 16]> = {
        let mut h = keccak(format!("poseidon_seed_{}_16", M31::NAME).as_bytes());
        (0..22).map(|_| { let mut a = [0u64; 16]; for x in a.iter_mut() { h = keccak(&h); *x = u32::from_le_bytes(h[..4].try_into().unwrap()) as u64 % P31 } a }).collect()
    };
}
const P31: u64 = (1 << 31) - 1;
impl Ref for Mimc {
    fn refhash(d: &[u8]) -> Vec<u8> {
        let p = bn_p();
        let mut h = U256::ZERO;
        for c in d.chunks(32) {
            let x = le(c) % p;
            let mut y = x;
            MC.with(|k| for c in k {
                let t = addm(addm(y, h, p), *c, p);
                let t2 = mulm(t, t, p);
                y = mulm(mulm(t2, t2, p), t, p);
            });
            // Miyaguchi-Preneel: h + E_h(x) + x, where E_h ends by adding the key
            h = addm(h, addm(addm(y, h, p), x, p), p);
        }
        h.to_le_bytes().to_vec()
    }
}
impl Ref for Pos {
    fn refhash(d: &[u8]) -> Vec<u8> {
        const ROW: [u64; 16] = [1, 1, 51, 1, 11, 17, 2, 1, 101, 63, 15, 2, 67, 22, 13, 3];
        let mut st = [0u64; 16];
        for c in d.chunks(32) {
            let mut b = c.to_vec();
            b.resize(32, 0);
            for i in 0..8 { st[8 + i] = (st[8 + i] + u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as u64) % P31 }
            PC.with(|k| for (r, c) in k.iter().enumerate() {
                for i in 0..16 { st[i] = (st[i] + c[i]) % P31 }
                let mut n = [0u64; 16];
                for i in 0..16 { for j in 0..16 { n[i] = (n[i] + st[j] * ROW[(i + j) % 16]) % P31 } }
                let full = r < 4 || r >= 18;
                for i in 0..16 { if full || i == 0 { let x = n[i]; let x2 = x * x % P31; n[i] = x2 * x2 % P31 * x % P31 } }
                st = n;
            });
        }
        st.iter().flat_map(|x| (*x as u32).to_le_bytes()).collect()
    }
}

fn hash<H: FiatShamirHasher + Ref>(s: &mut Src) -> R {
    let n = s.pickc(&[0usize, 1, 3, 4, 31, 32, 33, 55, 56, 63, 64, 65, 96, 127, 128, 135, 136, 137, 200, 300]);
    let n = if s.bool() { n } else { s.usize_in(0, 300) };
    let mut d = s.blob(n);
    d.resize(n, 0);
    if s.chance(1, 6) { d.fill(0xff); s.label("all ones") }
    if n > 0 { s.nontrivial() }
    let h = H::new();
    let want = H::refhash(&d);
    ensure_eq!(want.len(), H::DIGEST_SIZE, "{}: digest size", H::NAME);
    let mut o = vec![0xa5u8; H::DIGEST_SIZE];
    h.hash(&mut o, &d);
    ensure!(o == want, "{}: hash of {} bytes {}\n got {:02x?}\nwant {:02x?}", H::NAME, n, clip(format!("{d:02x?}")), o, want);
    let mut d = d; d.resize(H::DIGEST_SIZE, 7);
    let want = H::refhash(&d);
    h.clone().hash_inplace(&mut d);
    ensure!(d == want, "{}: hash_inplace differs from hash", H::NAME);
    Ok(())
}

fn vectors(s: &mut Src) -> R {
    s.nontrivial();
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let mut o = [0u8; 32];
    Sha::new().hash(&mut o, b"abc");
    ensure_eq!(hex(&o), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "SHA-256(abc)");
    Kec::new().hash(&mut o, b"");
    ensure_eq!(hex(&o), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470", "Keccak-256 of nothing");
    Kec::new().hash(&mut o, b"abc");
    ensure_eq!(hex(&o), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45", "Keccak-256(abc)");
    Ok(())
}

#[derive(Clone, Debug)]
enum Op { App(Vec<u8>), Com(Vec<u8>), Gen(usize), Elems(u8, usize), Idx(usize), State, Reset, Lock, Unlock, AppElem(Vec<u64>), Data(Vec<u64>), Sync(usize) }

struct Model<H> { digest: Vec<u8>, pending: Vec<u8>, proof: Vec<u8>, locked: bool, h: std::marker::PhantomData<H> }
impl<H: Ref + FiatShamirHasher> Model<H> {
    fn new() -> Self { Model { digest: vec![0; H::DIGEST_SIZE], pending: vec![], proof: vec![], locked: false, h: Default::default() } }
    fn app(&mut self, d: &[u8]) { self.pending.extend(d); if !self.locked { self.proof.extend(d) } }
    fn refresh(&mut self) { let mut i = std::mem::take(&mut self.digest); i.append(&mut self.pending); self.digest = H::refhash(&i) }
    fn gen(&mut self, n: usize) -> Vec<u8> { let mut o = vec![]; while o.len() < n { self.refresh(); let k = H::DIGEST_SIZE.min(n - o.len()); o.extend(&self.digest[..k]) } o }
}

fn gen_ops(s: &mut Src, com: bool) -> Vec<Op> {
    let n = s.usize_in(1, 14);
    let mut locked = false;
    (0..n).map(|_| {
        let w = s.weighted(&[6, if com { 1 } else { 0 }, 5, 3, 2, 1, 1, 2, 2, 1, 1]);
        let some = |s: &mut Src, m: usize| { let k = s.usize_in(0, m); let mut b = s.blob(k); b.resize(k, 0); b };
        match w {
            0 => Op::App(some(s, 80)),
            1 => Op::Com(some(s, 70)),
            2 => Op::Gen(s.usize_in(0, 100)),
            3 => Op::Elems(s.below(6) as u8, s.usize_in(0, 4)),
            4 => Op::Idx(s.usize_in(0, 4)),
            5 => Op::State,
            6 => Op::Reset,
            7 => if locked { locked = false; Op::Unlock } else { locked = true; Op::Lock },
            8 => Op::AppElem((0..3).map(|_| s.u64_any()).collect()),
            9 => { let k = s.usize_in(0, 3); Op::Data((0..k).map(|_| s.u64_any()).collect()) }
            _ => Op::Sync(s.usize_in(0, 3)),
        }
    }).collect()
}
fn ext3(v: &[u64]) -> M31Ext3 { M31Ext3::from_limbs(&v.iter().map(|x| M31::from((*x % P31) as u32)).collect::<Vec<_>>()) }
fn ser<T: ExpSerde>(x: &T) -> Vec<u8> { let mut v = vec![]; x.serialize_into(&mut v).unwrap(); v }

/// Runs the operations on the real transcript; every output (challenges, states) and the final proof.
fn run<T: Transcript>(ops: &[Op], digest: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut t = T::new();
    let mut out = vec![];
    let mut locked = false;
    for op in ops {
        match op {
            Op::App(d) => t.append_u8_slice(d),
            Op::Com(d) => t.append_commitment(d),
            Op::Gen(n) => out.push(t.generate_u8_slice(*n)),
            Op::Elems(k, n) => out.push(match k {
                0 => ser(&t.generate_field_elements::<M31Ext3>(*n)), 1 => ser(&t.generate_field_elements::<Fr>(*n)),
                2 => ser(&t.generate_field_elements::<GoldilocksExt2>(*n)), 3 => ser(&t.generate_field_elements::<GF2_128>(*n)),
                4 => ser(&t.generate_field_elements::<BabyBearExt3>(*n)), _ => ser(&vec![t.generate_field_element::<M31Ext3>()]),
            }),
            Op::Idx(n) => out.push(t.generate_usize_vector(*n).iter().flat_map(|x| x.to_le_bytes()).collect()),
            Op::State => out.push(t.hash_and_return_state()),
            Op::Reset => { let st: Vec<u8> = (0..digest).map(|i| (i % 4 + 1) as u8).collect(); t.set_state(&st) }
            Op::Lock => { t.lock_proof(); locked = true }
            Op::Unlock => { t.unlock_proof(); locked = false }
            Op::AppElem(v) => t.append_field_element(&ext3(v)),
            Op::Data(v) => t.append_serializable_data(v),
            Op::Sync(w) => transcript_verifier_sync(&mut t, *w),
        }
    }
    let mut u = t.clone();
    let p = u.finalize_and_get_proof();
    assert_eq!(ser(&p).len(), p.bytes.len() + 8);
    if !locked { out.push(t.generate_u8_slice(24)) }
    (out, p.bytes)
}
fn run_model<H: Ref + FiatShamirHasher>(ops: &[Op]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut t = Model::<H>::new();
    let mut out = vec![];
    fn el<F: Field, H: Ref + FiatShamirHasher>(t: &mut Model<H>, n: usize) -> Vec<u8> { ser(&(0..n).map(|_| F::from_uniform_bytes(&t.gen(F::SIZE))).collect::<Vec<F>>()) }
    for op in ops {
        match op {
            Op::App(d) => t.app(d),
            Op::Com(d) => { t.app(d); t.refresh(); for _ in 0..1000 { t.refresh() } }
            Op::Gen(n) => { let o = t.gen(*n); out.push(o) }
            Op::Elems(k, n) => { let o = match k { 0 => el::<M31Ext3, H>(&mut t, *n), 1 => el::<Fr, H>(&mut t, *n), 2 => el::<GoldilocksExt2, H>(&mut t, *n), 3 => el::<GF2_128, H>(&mut t, *n), 4 => el::<BabyBearExt3, H>(&mut t, *n), _ => el::<M31Ext3, H>(&mut t, 1) }; out.push(o) }
            Op::Idx(n) => { let o = (0..*n).flat_map(|_| t.gen(8)).collect(); out.push(o) }
            Op::State => { t.refresh(); out.push(t.digest.clone()) }
            Op::Reset => { t.pending.clear(); t.digest = (0..H::DIGEST_SIZE).map(|i| (i % 4 + 1) as u8).collect() }
            Op::Lock => t.locked = true,
            Op::Unlock => { t.locked = false; if !t.pending.is_empty() { t.refresh() } }
            Op::AppElem(v) => t.app(&ser(&ext3(v))),
            Op::Data(v) => t.app(&ser(v)),
            Op::Sync(w) => if *w > 1 { t.refresh() },
        }
    }
    if !t.locked { let o = t.gen(24); out.push(o) }
    (out, t.proof)
}
fn history<H: FiatShamirHasher + Ref>(s: &mut Src) -> R {
    let com = H::NAME == Sha::NAME || s.chance(1, 16);
    let ops = gen_ops(s, com);
    if ops.len() > 2 { s.nontrivial() }
    if ops.iter().any(|o| matches!(o, Op::Com(_))) { s.label("commitment") }
    if ops.iter().any(|o| matches!(o, Op::Lock)) { s.label("locked part") }
    s.note(|| format!("{ops:?}"));
    let a = run::<BytesHashTranscript<H>>(&ops, H::DIGEST_SIZE);
    let b = run_model::<H>(&ops);
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() { ensure!(x == y, "{}: output {i} of {:?} is not the hash of the state and the messages since", H::NAME, clip(format!("{ops:?}"))) }
    ensure!(a.0.len() == b.0.len(), "number of outputs");
    ensure!(a.1 == b.1, "{}: the proof is not the concatenation of the messages appended while unlocked: {:?}", H::NAME, clip(format!("{ops:?}")));
    Ok(())
}
/// Changing one byte of one message changes every later challenge and leaves every earlier one alone.
fn binding<H: FiatShamirHasher + Ref>(s: &mut Src) -> R {
    let com = H::NAME == Sha::NAME || H::NAME == Kec::NAME || s.chance(1, 8);
    let mut ops = gen_ops(s, com);
    ops.retain(|o| !matches!(o, Op::Reset));
    let mut locked = false;
    for o in &ops { match o { Op::Lock => locked = true, Op::Unlock => locked = false, _ => {} } }
    if locked { ops.push(Op::Unlock) }
    let cand: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| match o { Op::App(d) | Op::Com(d) => !d.is_empty(), Op::AppElem(_) => true, Op::Data(v) => !v.is_empty(), _ => false }).map(|(i, _)| i).collect();
    if cand.is_empty() { return Err(Fail::Discard) }
    let i = cand[s.below(cand.len())];
    let mut b = ops.clone();
    match &mut b[i] {
        Op::App(d) | Op::Com(d) => { let k = s.below(d.len()); d[k] ^= 1 << s.below(8) }
        Op::AppElem(v) => { let k = s.below(v.len()); v[k] = (v[k] % P31) ^ 1 }
        Op::Data(v) => { let k = s.below(v.len()); v[k] ^= 1 << s.below(64) }
        _ => unreachable!(),
    }
    s.nontrivial();
    s.note(|| format!("{ops:?} changed at {i}"));
    let is_out = |o: &Op| matches!(o, Op::Gen(_) | Op::Elems(..) | Op::Idx(_) | Op::State);
    let before = ops[..i].iter().filter(|o| is_out(o)).count();
    let (x, y) = (run::<BytesHashTranscript<H>>(&ops, H::DIGEST_SIZE).0, run::<BytesHashTranscript<H>>(&b, H::DIGEST_SIZE).0);
    for j in 0..x.len() {
        if j < before { ensure!(x[j] == y[j], "{}: a challenge depends on a later message: {:?}", H::NAME, clip(format!("{ops:?}"))) }
        else if x[j].len() >= 16 + 8 { ensure!(x[j] != y[j], "{}: output {j} does not depend on message {i} of {:?}", H::NAME, clip(format!("{ops:?}"))) }
    }
    Ok(())
}

fn tape(s: &mut Src) -> R {
    let n = s.usize_in(1, 12);
    let t: Vec<M31Ext3> = (0..n).map(|_| M31Ext3::build(&gen_flat::<M31Ext3>(s))).collect();
    s.nontrivial();
    let mut r = RandomTape::new_with_tape(t.clone());
    let mut got = vec![];
    while got.len() < n {
        if s.chance(1, 3) { r.append_u8_slice(&[1, 2]); r.append_field_element(&t[0]) }
        let k = s.usize_in(0, n - got.len());
        got.extend(r.generate_field_elements::<M31Ext3>(k));
    }
    ensure!(got == t, "the tape is not replayed in order");
    ensure!(no_panic(|| r.generate_field_element::<M31Ext3>()).is_err(), "an exhausted tape produced a challenge");
    Ok(())
}

/// The sampled points: circuit variables first, then one per packing level, then one per log of the world size.
fn points<C: gkr_engine::FieldEngine>(s: &mut Src) -> R where C::ChallengeField: PartialEq {
    let (nv, w) = (s.usize_in(0, 9), 1usize << s.below(4));
    let d = { let k = s.usize_in(0, 40); s.blob(k) };
    s.nontrivial();
    let mk = || { let mut t = BytesHashTranscript::<Sha>::new(); t.append_u8_slice(&d); t };
    let simd = (<C::SimdCircuitField as SimdField>::PACK_SIZE as u32).trailing_zeros() as usize;
    let mpi = w.trailing_zeros() as usize;
    let all: Vec<C::ChallengeField> = mk().generate_field_elements(nv + simd + mpi);
    let (mut t1, mut t2) = (mk(), mk());
    let a = ExpanderSingleVarChallenge::<C>::sample_from_transcript(&mut t1, nv, w);
    let b = ExpanderDualVarChallenge::<C>::sample_from_transcript(&mut t2, nv, w);
    ensure!(a.rz == all[..nv] && a.r_simd == all[nv..nv + simd] && a.r_mpi == all[nv + simd..], "single challenge of {nv} variables, world {w}");
    ensure!(b.rz_0 == a.rz && b.rz_1.is_none() && b.r_simd == a.r_simd && b.r_mpi == a.r_mpi, "dual challenge of {nv} variables, world {w}");
    ensure!(a.num_vars() == nv + simd + mpi, "num_vars");
    ensure!(a.local_xs() == [&a.r_simd[..], &a.rz].concat() && a.global_xs() == [&a.r_simd[..], &a.rz, &a.r_mpi].concat(), "local and global point order");
    ensure!(ExpanderDualVarChallenge::from(&a) == b && ExpanderDualVarChallenge::from(a.clone()) == b, "conversion to a dual challenge");
    let y: Vec<C::ChallengeField> = t2.generate_field_elements(nv);
    let c = ExpanderDualVarChallenge::<C>::new(b.rz_0.clone(), Some(y.clone()), b.r_simd.clone(), b.r_mpi.clone());
    let (cx, cy) = (c.challenge_x(), c.challenge_y().unwrap());
    ensure!(cx.rz == b.rz_0 && cy.rz == y && cx.r_simd == b.r_simd && cy.r_simd == b.r_simd && cx.r_mpi == b.r_mpi && cy.r_mpi == b.r_mpi && b.challenge_y().is_none(), "splitting a dual challenge");
    let e = ser(&c);
    ensure!(ExpanderDualVarChallenge::<C>::deserialize_from(&e[..]).map(|x| x == c).unwrap_or(false), "dual challenge does not read back");
    let e = ser(&a);
    let r = ExpanderSingleVarChallenge::<C>::deserialize_from(&e[..]);
    ensure!(r.map(|x| x.rz == a.rz && x.r_simd == a.r_simd && x.r_mpi == a.r_mpi).unwrap_or(false), "single challenge does not read back");
    ensure!(t1.generate_u8_slice(16) == { let mut t = mk(); t.generate_field_elements::<C::ChallengeField>(nv + simd + mpi); t.generate_u8_slice(16) }, "sampling used another amount of randomness");
    Ok(())
}

pub fn c30() -> Check {
    use gkr_engine::*;
    Check::new("C30", "exploration", "byte strings of 0-300 bytes; histories of 1-14 append, commit, challenge, lock and state operations; non-trivial: non-empty input or more than two operations")
        .prop("published test vectors", 1, 1, vectors)
        .prop("SHA-256", 2000, 50000, hash::<Sha>)
        .prop("Keccak-256", 2000, 50000, hash::<Kec>)
        .prop("MiMC5", 300, 10000, hash::<Mimc>)
        .prop("Poseidon", 1000, 30000, hash::<Pos>)
        .prop("history:SHA-256", 2000, 60000, history::<Sha>)
        .prop("history:Keccak-256", 1000, 30000, history::<Kec>)
        .prop("history:MiMC5", 60, 1500, history::<Mimc>)
        .prop("history:Poseidon", 200, 8000, history::<Pos>)
        .prop("binding:SHA-256", 2000, 60000, binding::<Sha>)
        .prop("binding:Keccak-256", 1000, 30000, binding::<Kec>)
        .prop("binding:MiMC5", 60, 1500, binding::<Mimc>)
        .prop("binding:Poseidon", 200, 8000, binding::<Pos>)
        .prop("random tape", 500, 20000, tape)
        .prop("points:M31x16", 300, 10000, points::<M31x16Config>)
        .prop("points:GF2", 300, 10000, points::<GF2ExtConfig>)
        .prop("points:BN254", 300, 10000, points::<BN254Config>)
        .prop("points:Goldilocksx8", 300, 10000, points::<Goldilocksx8Config>)
        .prop("points:BabyBear", 300, 10000, points::<BabyBearx16Config>)
}
