//! C36: GKR proofs are complete, bound to their statement, and malformed ones are refused.
use crate::compile::*;
use crate::forms::*;
use crate::ir::*;
use arith::{Field as _, SimdField};
use circuit::{CircuitLayer, CoefType, GateAdd, GateConst, GateMul, GateUni};
use expander_compiler::circuit::layered::NormalInputType;
use expander_compiler::frontend::{BN254Config, BabyBearConfig, Config, GF2Config, GoldilocksConfig, M31Config};
use expander_compiler::circuit::config::Goldilocksx8Config;
use gkr::*;
use gkr_engine::{ExpanderDualVarChallenge, ExpanderPCS, ExpanderSingleVarChallenge, Transcript, FieldEngine, GKREngine, GKRScheme, MPIConfig, Proof, StructuredReferenceString};
use pbt::*;
use serdes::ExpSerde;

pub type Fe<G> = <G as GKREngine>::FieldConfig;
pub type Sf<G> = <Fe<G> as FieldEngine>::SimdCircuitField;
pub type Cf<G> = <Fe<G> as FieldEngine>::CircuitField;
pub type Ch<G> = <Fe<G> as FieldEngine>::ChallengeField;
pub type Pcs<G> = <G as GKREngine>::PCSConfig;
pub type Params<G> = <Pcs<G> as ExpanderPCS<Fe<G>>>::Params;
pub type Vk<G> = <<Pcs<G> as ExpanderPCS<Fe<G>>>::SRS as StructuredReferenceString>::VKey;
type Ck<G> = circuit::Circuit<Fe<G>>;

pub fn rnd_el<FF: arith::Field>(s: &mut Src) -> FF {
    match s.below(4) { 0 => FF::ZERO, 1 => FF::ONE, _ => { let b = s.blob(64); FF::from_uniform_bytes(&b) } }
}
/// Verdict of every verifier entry point; they have to agree.
fn verify<G: GKREngine>(c: &Ck<G>, public: &[Sf<G>], claim: &Ch<G>, params: &Params<G>, vk: &Vk<G>, proof: &[u8], all: bool, what: &str) -> Result<bool, Fail> {
    let v = Verifier::<G>::new(MPIConfig::verifier_new(1));
    let p = Proof { bytes: proof.to_vec() };
    let a = ok(no_panic(|| v.verify(&mut c.clone(), public, claim, params, vk, &p)), &format!("verify ({what})"))?;
    if all {
        let seen = std::cell::RefCell::new(vec![]);
        let cb = |i: usize, n: usize, r: bool| seen.borrow_mut().push((i, n, r));
        let b = ok(no_panic(|| v.verify_with_progress(&mut c.clone(), public, claim, params, vk, &p, Some(&cb))), &format!("verify_with_progress ({what})"))?;
        ensure_eq!(b, a, "verify_with_progress differs from verify ({what})");
        let n = c.layers.len();
        if a { ensure!(*seen.borrow() == (0..n).map(|i| (i, n, true)).collect::<Vec<_>>(), "progress reported {:?} for {n} layers", seen.borrow()) }
        let b = ok(no_panic(|| v.par_verify(&mut c.clone(), public, claim, params, vk, &p)), &format!("par_verify ({what})"))?;
        ensure_eq!(b, a, "par_verify differs from verify ({what})");
        if G::SCHEME != GKRScheme::GkrSquare {
            let b = ok(no_panic(|| v.verify_ref(c, public, claim, params, vk, &p)), &format!("verify_ref ({what})"))?;
            ensure_eq!(b, a, "verify_ref differs from verify ({what})");
            seen.borrow_mut().clear();
            let b = ok(no_panic(|| v.verify_ref_with_progress(c, public, claim, params, vk, &p, Some(&cb))), &format!("verify_ref_with_progress ({what})"))?;
            ensure_eq!(b, a, "verify_ref_with_progress differs from verify ({what})");
            if a { ensure_eq!(seen.borrow().len(), n, "progress reports") }
        }
    }
    Ok(a)
}
pub struct Setup<G: GKREngine> { pub params: Params<G>, pub pk: <<Pcs<G> as ExpanderPCS<Fe<G>>>::SRS as StructuredReferenceString>::PKey, pub vk: Vk<G>, pub scratch: <Pcs<G> as ExpanderPCS<Fe<G>>>::ScratchPad }
pub fn setup<G: GKREngine>(vars: usize) -> Result<Setup<G>, Fail> {
    let mpi = MPIConfig::prover_new();
    let (params, pk, vk, scratch) = ok(no_panic(|| poly_commit::expander_pcs_init_testing_only::<Fe<G>, Pcs<G>>(vars, &mpi)), "PCS setup")?;
    Ok(Setup { params, pk, vk, scratch })
}
fn prove<G: GKREngine>(c: &Ck<G>, x: &[Sf<G>], public: &[Sf<G>], st: &mut Setup<G>) -> Result<(Ch<G>, Vec<u8>), Fail> {
    let mut c = c.clone();
    c.layers[0].input_vals = x.to_vec();
    c.public_input = public.to_vec();
    let mut p = Prover::<G>::new(MPIConfig::prover_new());
    let (v, pr) = ok(no_panic(|| { p.prepare_mem(&c); p.prove(&mut c, &st.params, &st.pk, &mut st.scratch) }), "proving")?;
    Ok((v, pr.bytes))
}
/// Output values with the random coefficients replaced by fixed ones.
fn outputs<G: GKREngine>(c: &Ck<G>, x: &[Sf<G>], public: &[Sf<G>], seed: u64) -> Result<Vec<Sf<G>>, Fail> {
    let mut c = c.clone();
    let mut r = SplitMix(seed);
    for l in c.layers.iter_mut() {
        macro_rules! fill { ($($k:ident),*) => { $( for g in l.$k.iter_mut() { if g.coef_type == CoefType::Random { let b: Vec<u8> = (0..8).flat_map(|_| r.next().to_le_bytes()).collect(); g.coef = Cf::<G>::from_uniform_bytes(&b) } } )* } }
        fill!(mul, add, const_, uni);
    }
    c.layers[0].input_vals = x.to_vec();
    c.public_input = public.to_vec();
    ok(no_panic(|| c.evaluate()), "evaluating")?;
    Ok(c.layers.last().unwrap().output_vals.clone())
}
/// Two circuits that differ may agree under the coefficients a proof happens to draw from a small field.
fn chancy<G: GKREngine>(c: &Ck<G>) -> bool {
    Cf::<G>::FIELD_SIZE < 20 && c.layers.iter().any(|l| l.mul.iter().any(|g| g.coef_type == CoefType::Random) || l.add.iter().any(|g| g.coef_type == CoefType::Random) || l.const_.iter().any(|g| g.coef_type == CoefType::Random) || l.uni.iter().any(|g| g.coef_type == CoefType::Random))
}
/// One edit that may change what the circuit computes.
fn edit<G: GKREngine>(s: &mut Src, c: &mut Ck<G>) -> String {
    for _ in 0..20 {
        let li = s.below(c.layers.len());
        let l = &mut c.layers[li];
        let (iv, ov) = (1usize << l.input_var_num, 1usize << l.output_var_num);
        let kind = s.below(4);
        let drop = s.chance(1, 4);
        macro_rules! go { ($v:expr, $name:expr, $inputs:expr) => { { if $v.is_empty() { continue } let k = s.below($v.len()); if drop { $v.remove(k); return format!("{} gate {k} of layer {li} removed", $name) } match s.below(3) {
            0 => if $v[k].coef_type == CoefType::Constant { $v[k].coef += Cf::<G>::ONE } else { $v[k].coef_type = CoefType::Constant; $v[k].coef = Cf::<G>::ONE },
            1 => $v[k].o_id = ($v[k].o_id + 1 + s.below(ov)) % ov,
            _ => { if $inputs == 0 { continue } let w = s.below($inputs); $v[k].i_ids[w] = ($v[k].i_ids[w] + 1 + s.below(iv)) % iv } }
            return format!("{} gate {k} of layer {li} edited", $name) } } }
        match kind { 0 => go!(l.mul, "mul", 2), 1 => go!(l.add, "add", 1), 2 => {
            if l.const_.is_empty() { continue }
            let k = s.below(l.const_.len());
            if drop { l.const_.remove(k); return format!("const gate {k} of layer {li} removed") }
            if s.bool() { l.const_[k].o_id = (l.const_[k].o_id + 1 + s.below(ov)) % ov } else if l.const_[k].coef_type == CoefType::Constant { l.const_[k].coef += Cf::<G>::ONE } else { l.const_[k].coef_type = CoefType::Constant }
            return format!("const gate {k} of layer {li} edited")
        } _ => go!(l.uni, "uni", 1) }
    }
    String::new()
}
fn bump<SF: SimdField>(s: &mut Src, v: &mut SF) {
    let mut l = v.unpack();
    let k = s.below(l.len());
    let d: SF::Scalar = rnd_el(s);
    l[k] += if d.is_zero() { SF::Scalar::ONE } else { d };
    *v = SF::pack(&l);
}
/// `fresh`: the circuit without random coefficients filled in. `zero`: whether all outputs are known to be zero.
fn protocol<G: GKREngine>(s: &mut Src, fresh: &Ck<G>, x: &[Sf<G>], public: &[Sf<G>], zero: Option<bool>) -> R {
    let mut st = setup::<G>(fresh.log_input_size())?;
    let (claim, proof) = prove::<G>(fresh, x, public, &mut st)?;
    s.note(|| format!("{} layers of {:?} variables, {} lanes, {} public, proof of {} bytes, claim {claim:?}", fresh.layers.len(), fresh.layers.iter().map(|l| (l.input_var_num, l.output_var_num)).collect::<Vec<_>>(), Sf::<G>::PACK_SIZE, public.len(), proof.len()));
    if fresh.layers.len() > 2 { s.nontrivial() }
    ensure!(verify::<G>(fresh, public, &claim, &st.params, &st.vk, &proof, true, "honest proof")?, "an honest proof is rejected");
    if let Some(z) = zero { ensure_eq!(claim.is_zero(), z, "claimed output {claim:?} is zero") }
    let (again, second) = prove::<G>(fresh, x, public, &mut st)?;
    ensure!(verify::<G>(fresh, public, &again, &st.params, &st.vk, &second, false, "second proof")?, "a second proof by the same prover is rejected");
    let all = s.chance(1, 3);
    let mut chk = |c: &Ck<G>, public: &[Sf<G>], claim: &Ch<G>, proof: &[u8], what: &str| verify::<G>(c, public, claim, &st.params, &st.vk, proof, all, what);
    // another claim
    let d: Ch<G> = rnd_el(s);
    let other = claim + if d.is_zero() { Ch::<G>::ONE } else { d };
    ensure!(!chk(fresh, public, &other, &proof, "another claim")?, "a proof of {claim:?} is accepted for {other:?}");
    if !claim.is_zero() { ensure!(!chk(fresh, public, &Ch::<G>::ZERO, &proof, "claim zero")?, "a proof of {claim:?} is accepted for zero") }
    // other public inputs
    if !public.is_empty() {
        let mut q = public.to_vec();
        let k = s.below(q.len());
        bump(s, &mut q[k]);
        s.label("another public input");
        if !chancy::<G>(fresh) && outputs::<G>(fresh, x, &q, 5)? != outputs::<G>(fresh, x, public, 5)? { ensure!(!chk(fresh, &q, &claim, &proof, "another public input")?, "the proof is accepted after public input {k} was changed from {:?} to {:?}", public[k], q[k]) }
    }
    // damaged proofs; some fields of KZG (one process) and Whir openings are not used (C37 covers openings)
    let pcs = <Pcs<G> as ExpanderPCS<Fe<G>>>::PCS_TYPE;
    let loose = matches!(pcs, gkr_engine::PolynomialCommitmentType::KZG | gkr_engine::PolynomialCommitmentType::Whir);
    let el = Ch::<G>::SIZE;
    let bound = if loose { (if pcs == gkr_engine::PolynomialCommitmentType::Whir { 40 } else { 32 }) + fresh.layers.iter().map(|l| (3 * el * l.input_var_num + el) * if l.mul.is_empty() { 1 } else { 2 }).sum::<usize>() } else { proof.len() };
    ensure!(bound <= proof.len(), "a proof of {} bytes, expected at least {bound}", proof.len());
    let from = if pcs == gkr_engine::PolynomialCommitmentType::Whir { 40 } else { 0 };
    for _ in 0..3 {
        let mut m = proof.clone();
        let how = match s.below(5) {
            0 => { let cut = s.below(m.len()); m.truncate(cut); format!("cut at {cut}") }
            1 => { damage(s, &mut m); "damaged".into() }
            2 => { let at = from + s.below(bound - from); m.remove(at); format!("byte {at} removed") }
            _ => { let at = from + s.below(bound - from); m[at] ^= 1 << s.below(8); format!("bit of byte {at} of {} flipped", m.len()) }
        };
        if m.starts_with(&proof) { continue } // what follows a proof is not read
        let r = chk(fresh, public, &claim, &m, &how)?;
        if loose && how.starts_with("cut") && m.len() >= bound { continue }
        if loose && how == "damaged" { continue }
        ensure!(!r, "a proof that was {how} is accepted");
    }
    // another circuit
    let mut c = fresh.clone();
    let how = edit::<G>(s, &mut c);
    if !how.is_empty() {
        c.identify_structure_info();
        c.rnd_coefs.clear();
        c.rnd_coefs_identified = false;
        c.identify_rnd_coefs();
        if !chancy::<G>(fresh) && !chancy::<G>(&c) && outputs::<G>(&c, x, public, 5)? != outputs::<G>(fresh, x, public, 5)? {
            s.label("another circuit");
            ensure!(!chk(&c, public, &claim, &proof, &how)?, "the proof is accepted for another circuit ({how})");
        }
    }
    s.evals(8);
    Ok(())
}
fn compiled<C: Config, G: GKREngine<FieldConfig = <C as GKREngine>::FieldConfig>>(s: &mut Src) -> R {
    let p = program::<C>(s, Shape { max_subs: 2, max_insns: 6, unconstrained: false, terms: 3 });
    if weight(&p.root) > 400 { return Err(Fail::Discard) }
    let o = options(s);
    let (root, mut pub_) = (p.root.clone(), p.public.clone());
    let c = match compile::<C, NormalInputType>(&root, &o) { Ok(c) => c, Err(_) => return Err(Fail::Discard) };
    if c.lc.input_size() > 64 || c.lc.layer_ids.len() > 24 { return Err(Fail::Discard) }
    let lanes = <Fe<G> as FieldEngine>::get_field_pack_size();
    let mut rs = vec![];
    for j in 0..lanes {
        let inputs = if j == 0 { p.inputs.clone() } else { other_inputs::<C>(s, &p.inputs) };
        if let Ok(w) = c.solver.solve_witness_from_raw_inputs(inputs, pub_.clone(), &Hints) { rs.push(rows(&w).remove(0)) }
        if j >= 3 { break }
    }
    if rs.is_empty() { return Err(Fail::Discard) }
    // a wrong witness now and then
    if s.chance(1, 4) { let j = s.below(rs.len()); let k = s.below(rs[j].0.len()); rs[j].0[k] = el::<C>(s) }
    while rs.len() < lanes { let r = rs[s.below(rs.len())].clone(); rs.push(r) }
    pub_.clear();
    s.note(|| format!("{o:?} rows {} program {}", clip(format!("{rs:?}")), describe(&p.root)));
    let f = ok(no_panic(|| c.lc.export_to_expander_flatten()), "flattening")?;
    let (mut x, y) = make::<C>(&rs, c.lc.input_size(), c.lc.num_public_inputs).to_simd::<Sf<G>>();
    // the loader pads a single input to one variable
    x.resize(x.len().max(1 << f.log_input_size()), Sf::<G>::ZERO);
    // are all outputs zero? random coefficients are drawn many times
    let mut zero = true;
    let small = modulus::<C>() < ethnum::U256::from(1000u32);
    for t in 0..if small { 80 } else { 8 } { zero &= outputs::<G>(&f, &x, &y, 77 + t)?.iter().all(|v| v.is_zero()) }
    protocol::<G>(s, &f, &x, &y, if zero || !small { Some(zero) } else { None })
}
fn circuits<G: GKREngine>(s: &mut Src) -> R {
    let square = G::SCHEME == GKRScheme::GkrSquare;
    let n = s.usize_in(1, 5);
    let np = s.weighted(&[2, 2, 1]);
    let top = if s.chance(1, 6) { 7 } else { 4 };
    let mut vars = s.usize_in(1, top);
    let mut layers = vec![];
    for li in 0..n {
        let out = s.usize_in(1, top);
        let mut l = CircuitLayer::<Fe<G>> { input_var_num: vars, output_var_num: out, ..Default::default() };
        let (iv, ov) = (1usize << vars, 1usize << out);
        let dense = s.usize_in(0, 2 * ov.min(12));
        let coef = |s: &mut Src| -> (CoefType, Cf<G>) { match s.weighted(&[6, if square { 0 } else { 1 }]) { 0 => (CoefType::Constant, rnd_el(s)), _ => (CoefType::Random, Cf::<G>::ZERO) } };
        for _ in 0..dense {
            let (coef_type, cf) = coef(s);
            let o_id = s.below(ov);
            if square {
                l.uni.push(GateUni { i_ids: [s.below(iv)], o_id, coef_type, coef: cf, gate_type: 12345 + s.below(2) });
            } else if s.bool() && li > 0 || s.chance(1, 8) {
                let a = s.below(iv);
                l.mul.push(GateMul { i_ids: [a, if s.chance(1, 4) { a } else { s.below(iv) }], o_id, coef_type, coef: cf, gate_type: 0 });
            } else {
                l.add.push(GateAdd { i_ids: [s.below(iv)], o_id, coef_type, coef: cf, gate_type: 0 });
            }
        }
        for _ in 0..s.below(4) {
            let o_id = s.below(ov);
            let (coef_type, cf) = if np > 0 && s.bool() { (CoefType::PublicInput(s.below(np)), Cf::<G>::ZERO) } else { coef(s) };
            l.const_.push(GateConst { i_ids: [], o_id, coef_type, coef: cf, gate_type: 0 });
        }
        layers.push(l);
        vars = out;
    }
    let mut c = Ck::<G> { layers, ..Default::default() };
    c.pre_process_gkr();
    let mut rnd = SplitMix(s.u64_any() | 1);
    let sparse = s.bool();
    let val = |r: &mut SplitMix| -> Sf<G> { let l: Vec<Cf<G>> = (0..Sf::<G>::PACK_SIZE).map(|_| if sparse && r.next() % 2 == 0 { Cf::<G>::ZERO } else { let b: Vec<u8> = (0..8).flat_map(|_| r.next().to_le_bytes()).collect(); Cf::<G>::from_uniform_bytes(&b) }).collect(); Sf::<G>::pack(&l) };
    let x: Vec<Sf<G>> = (0..1usize << c.layers[0].input_var_num).map(|_| val(&mut rnd)).collect();
    let y: Vec<Sf<G>> = (0..np).map(|_| val(&mut rnd)).collect();
    s.note(|| format!("{:?}", c.layers.iter().map(|l| (l.input_var_num, l.output_var_num, &l.mul, &l.add, &l.const_, &l.uni)).collect::<Vec<_>>()));
    let zero = outputs::<G>(&c, &x, &y, 9)?.iter().all(|v| v.is_zero());
    protocol::<G>(s, &c, &x, &y, if zero { None } else { None })
}
/// Solves for another public input that leaves the verifier's equations unchanged, which works when
/// the challenges do not depend on the public input.
fn forged_public<G: GKREngine>(s: &mut Src) -> R where Ch<G>: arith::ExtensionField<BaseField = Cf<G>> {
    use arith::ExtensionField as _;
    let lanes = Sf::<G>::PACK_SIZE;
    let deg = Ch::<G>::ONE.to_limbs().len();
    let np = (deg + 1).div_ceil(lanes) + s.below(3);
    let below = s.below(3); // layers under the one that reads the public inputs
    let above = s.below(3);
    let mut layers = vec![];
    let w = np.next_power_of_two().trailing_zeros().max(1) as usize;
    for li in 0..below + 1 + above {
        let mut l = CircuitLayer::<Fe<G>> { input_var_num: w, output_var_num: w, ..Default::default() };
        for o in 0..1usize << w { l.add.push(GateAdd { i_ids: [o], o_id: o, coef_type: CoefType::Constant, coef: Cf::<G>::ONE, gate_type: 0 }) }
        if li == below { for k in 0..np { l.const_.push(GateConst { i_ids: [], o_id: k, coef_type: CoefType::PublicInput(k), coef: Cf::<G>::ZERO, gate_type: 0 }) } }
        if li > 0 && s.bool() { l.mul.push(GateMul { i_ids: [s.below(1 << w), s.below(1 << w)], o_id: s.below(1 << w), coef_type: CoefType::Constant, coef: Cf::<G>::ONE, gate_type: 0 }) }
        layers.push(l);
    }
    let mut c = Ck::<G> { layers, ..Default::default() };
    c.pre_process_gkr();
    let mut rnd = SplitMix(s.u64_any() | 1);
    let mut val = || -> Sf<G> { let l: Vec<Cf<G>> = (0..lanes).map(|_| Cf::<G>::from(rnd.next() as u32 >> 1)).collect(); Sf::<G>::pack(&l) };
    let x: Vec<Sf<G>> = (0..1usize << w).map(|_| val()).collect();
    let public: Vec<Sf<G>> = (0..np).map(|_| val()).collect();
    let mut st = setup::<G>(c.log_input_size())?;
    let (claim, proof) = prove::<G>(&c, &x, &public, &mut st)?;
    ensure!(verify::<G>(&c, &public, &claim, &st.params, &st.vk, &proof, true, "honest proof")?, "an honest proof is rejected");
    s.note(|| format!("{np} public inputs, read by layer {below} of {}, {lanes} lanes, challenges of degree {deg}", c.layers.len()));
    s.nontrivial();
    // replay the verifier down to the layer that reads the public inputs
    let mut cur = std::io::Cursor::new(&proof);
    let mut tr = G::TranscriptConfig::new();
    let com = <Pcs<G> as ExpanderPCS<Fe<G>>>::Commitment::deserialize_from(&mut cur).unwrap();
    let mut b = vec![];
    com.serialize_into(&mut b).unwrap();
    tr.append_commitment(&b);
    c.fill_rnd_coefs(&mut tr);
    let mut sp = sumcheck::VerifierScratchPad::<Fe<G>>::new(&c, 1);
    let mut ch: ExpanderDualVarChallenge<Fe<G>> = ExpanderSingleVarChallenge::sample_from_transcript(&mut tr, w, 1).into();
    let (mut v0, mut v1, mut alpha) = (claim, None, None);
    tr.lock_proof(); tr.append_field_element(&claim); tr.unlock_proof();
    let n = c.layers.len();
    for i in (below + 1..n).rev() {
        sumcheck_verify_gkr_layer(1, &c.layers[i], &public, &mut ch, &mut v0, &mut v1, alpha, &mut cur, &mut tr, &mut sp, i == n - 1, false);
        alpha = if ch.rz_1.is_some() { Some(tr.generate_field_element::<Ch<G>>()) } else { None };
    }
    let l = &c.layers[below];
    sumcheck::GKRVerifierHelper::prepare_layer(l, &alpha, &ch, &mut sp, below == n - 1);
    let at = |p: &[Sf<G>]| sumcheck::GKRVerifierHelper::eval_cst(&l.const_, p, &sp);
    let zero = vec![Sf::<G>::ZERO; np];
    let base = at(&zero);
    // columns: effect of each lane of each public input; one dependent column exists by counting
    let mut rows: Vec<(Vec<Cf<G>>, Vec<Cf<G>>)> = vec![];
    let total = np * lanes;
    let mut found = None;
    for k in 0..total {
        let mut p = zero.clone();
        let mut one = vec![Cf::<G>::ZERO; lanes];
        one[k % lanes] = Cf::<G>::ONE;
        p[k / lanes] = Sf::<G>::pack(&one);
        let mut v = (at(&p) - base).to_limbs();
        let mut comb = vec![Cf::<G>::ZERO; total];
        comb[k] = Cf::<G>::ONE;
        for (rv, rc) in &rows {
            let piv = rv.iter().position(|x| !x.is_zero()).unwrap();
            if !v[piv].is_zero() { let f = v[piv] * rv[piv].inv().unwrap(); for j in 0..v.len() { let d = rv[j] * f; v[j] -= d } for j in 0..total { let d = rc[j] * f; comb[j] -= d } }
        }
        if v.iter().all(|x| x.is_zero()) { found = Some(comb); break }
        rows.push((v, comb));
    }
    let comb = found.ok_or(Fail::Discard)?;
    let q: Vec<Sf<G>> = (0..np).map(|i| { let mut u = public[i].unpack(); for j in 0..lanes { u[j] += comb[i * lanes + j] } Sf::<G>::pack(&u) }).collect();
    ensure!(outputs::<G>(&c, &x, &q, 5)? != outputs::<G>(&c, &x, &public, 5)?, "the forged public input changes nothing");
    if verify::<G>(&c, &q, &claim, &st.params, &st.vk, &proof, false, "solved public input")? {
        s.known("public-input-not-in-transcript", "an honest proof is accepted for other public inputs, found by solving the verifier's linear equation: the Fiat-Shamir challenges do not depend on the public inputs");
    }
    s.evals(2);
    Ok(())
}
pub fn c36() -> Check {
    let mut c = Check::new("C36", "exploration", "compiled programs and random layered circuits over every proof configuration; honest proofs by all five verifier entry points, then other claims, public inputs, circuits and damaged proofs; non-trivial: more than two layers");
    macro_rules! both { ($($cfg:ident $g:ident $q:expr),*) => { $( c = c.prop(concat!("compiled:", stringify!($g)), $q, 20 * $q, compiled::<$cfg, $g>).prop(concat!("circuits:", stringify!($g)), $q, 20 * $q, circuits::<$g>); )* } }
    both!(M31Config M31x16ConfigSha2RawVanilla 1500, M31Config M31x16ConfigPoseidonRawVanilla 4, M31Config M31x16ConfigSha2OrionVanilla 60,
        BN254Config BN254ConfigSha2Raw 1000, BN254Config BN254ConfigMIMC5Raw 40, BN254Config BN254ConfigSha2Hyrax 600, BN254Config BN254ConfigSha2KZG 400,
        GF2Config GF2ExtConfigSha2Raw 1000, GF2Config GF2ExtConfigSha2Orion 40,
        GoldilocksConfig Goldilocksx1ConfigSha2Raw 1000, GoldilocksConfig Goldilocksx1ConfigSha2Basefold 600, Goldilocksx8Config Goldilocksx8ConfigSha2Raw 800, Goldilocksx8Config Goldilocksx8ConfigSha2Orion 40,
        BabyBearConfig BabyBearx16ConfigSha2Raw 1000);
    c = c.prop("solved-public-inputs:M31x16", 60, 400, forged_public::<M31x16ConfigSha2RawVanilla>).prop("solved-public-inputs:BN254", 60, 400, forged_public::<BN254ConfigSha2Raw>).prop("solved-public-inputs:Goldilocks", 60, 400, forged_public::<Goldilocksx1ConfigSha2Basefold>);
    macro_rules! only { ($($g:ident $q:expr),*) => { $( c = c.prop(concat!("circuits:", stringify!($g)), $q, 20 * $q, circuits::<$g>); )* } }
    only!(M31x1ConfigSha2RawVanilla 800, M31x16ConfigPoseidonRawSquare 4, M31x16ConfigSha2OrionSquare 60, M31x16ConfigSha2RawSquare 800, BN254ConfigMIMC5KZG 20, GoldilocksExt2x1ConfigSha2Basefold 400, GoldilocksExt2x1ConfigSha2Raw 800, GoldilocksExt3x1ConfigSha2Whir 500, GoldilocksExt4x1ConfigSha2Whir 500);
    c
}
