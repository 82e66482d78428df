//! C37: polynomial commitments and the generic sumcheck on their own.
use crate::forms::{bytes_of, damage, ok};
use crate::snark::*;
use arith::{ExtensionField, Field as _, SimdField};
use gkr::*;
use gkr_engine::{ExpanderPCS, ExpanderSingleVarChallenge, FieldEngine, GKREngine, MPIConfig, StructuredReferenceString, PolynomialCommitmentType as T, Transcript};
use halo2curves::bn256::Fr;
use pbt::*;
use polynomials::{MultiLinearPoly, SumOfProductsPoly};
use serdes::ExpSerde;
use sumcheck::{IOPProof, IOPProverMessage, SumCheck};

type Com<G> = <Pcs<G> as ExpanderPCS<Fe<G>>>::Commitment;
type Op<G> = <Pcs<G> as ExpanderPCS<Fe<G>>>::Opening;
type X<G> = ExpanderSingleVarChallenge<Fe<G>>;

fn parse<A: ExpSerde>(b: &[u8]) -> Option<(A, usize)> {
    let mut c = std::io::Cursor::new(b);
    match no_panic(|| A::deserialize_from(&mut c)) { Ok(Ok(v)) => Some((v, c.position() as usize)), _ => None }
}
/// eq(x, r) of every hypercube point, lowest variable first.
fn eq<FF: arith::Field>(r: &[FF]) -> Vec<FF> {
    (0..1usize << r.len()).map(|i| r.iter().enumerate().map(|(k, v)| if i >> k & 1 == 1 { *v } else { FF::ONE - v }).product()).collect()
}
fn point<FF: arith::Field>(s: &mut Src, n: usize) -> Vec<FF> { (0..n).map(|_| rnd_el(s)).collect() }
fn coeffs<SF: SimdField>(s: &mut Src, n: usize) -> Vec<SF> {
    let sparse = s.bool();
    let mut r = SplitMix(s.u64_any() | 1);
    (0..1usize << n).map(|_| { let l: Vec<SF::Scalar> = (0..SF::PACK_SIZE).map(|_| if sparse && r.next() % 2 == 0 { SF::Scalar::ZERO } else { let b: Vec<u8> = (0..8).flat_map(|_| r.next().to_le_bytes()).collect(); SF::Scalar::from_uniform_bytes(&b) }).collect(); SF::pack(&l) }).collect()
}
/// Value of the polynomial the coefficients stand for, lanes being the lowest variables.
fn value<G: GKREngine>(p: &[Sf<G>], x: &X<G>) -> Ch<G> where Ch<G>: ExtensionField<BaseField = Cf<G>> {
    let (a, b) = (eq(&x.rz), eq(&x.r_simd));
    p.iter().zip(&a).map(|(v, e)| v.unpack().iter().zip(&b).map(|(w, f)| f.mul_by_base_field(w)).sum::<Ch<G>>() * e).sum()
}
fn single<G: GKREngine>(s: &mut Src) -> R where Ch<G>: ExtensionField<BaseField = Cf<G>> {
    let mpi = MPIConfig::prover_new();
    let kind = <Pcs<G> as ExpanderPCS<Fe<G>>>::PCS_TYPE;
    let top = if s.chance(1, 8) { 9 } else { 6 };
    let asked = s.usize_in(1, top);
    let mut st = setup::<G>(asked)?;
    let n = asked;
    let simd = Sf::<G>::PACK_SIZE.trailing_zeros() as usize;
    let a = coeffs::<Sf<G>>(s, n);
    let x = X::<G> { rz: point(s, n), r_simd: point(s, simd), r_mpi: vec![] };
    s.note(|| format!("{n} variables, {} lanes, params {:?}", Sf::<G>::PACK_SIZE, st.params));
    s.nontrivial();
    let poly = MultiLinearPoly::new(a.clone());
    let (pk, scratch) = (st.pk.clone(), &mut st.scratch);
    let com = ok(no_panic(|| <Pcs<G> as ExpanderPCS<Fe<G>>>::commit(&st.params, &mpi, &pk, &poly, scratch)), "commit")?;
    let com: Com<G> = match com { Some(c) => c, None => return Err(Fail::Violation(format!("no commitment to {n} variables"))) };
    let label = s.blob(4);
    let tr = || { let mut t = G::TranscriptConfig::new(); t.append_u8_slice(&label); t };
    let open: Op<G> = match ok(no_panic(|| <Pcs<G> as ExpanderPCS<Fe<G>>>::open(&st.params, &mpi, &pk, &poly, &x, &mut tr(), &*scratch)), "open")? { Some(o) => o, None => return Err(Fail::Violation("no opening".into())) };
    let v = value::<G>(&a, &x);
    let check = |c: &Com<G>, x: &X<G>, v: Ch<G>, o: &Op<G>, what: &str| ok(no_panic(|| <Pcs<G> as ExpanderPCS<Fe<G>>>::verify(&st.params, &st.vk, c, x, v, &mut tr(), o)), &format!("verify ({what})"));
    ensure!(check(&com, &x, v, &open, "honest")?, "an honest opening of {n} variables to {v:?} is rejected");
    // both survive serialization
    let (cb, ob) = (bytes_of(&com)?, bytes_of(&open)?);
    let (com2, k) = match parse::<Com<G>>(&cb) { Some(c) => c, None => return Err(Fail::Violation("a commitment cannot be read back".into())) };
    ensure_eq!(k, cb.len(), "bytes read of the commitment");
    let (open2, k) = match parse::<Op<G>>(&ob) { Some(c) => c, None => return Err(Fail::Violation("an opening cannot be read back".into())) };
    ensure_eq!(k, ob.len(), "bytes read of the opening");
    ensure!(bytes_of(&com2)? == cb && bytes_of(&open2)? == ob, "serialization changes the commitment or opening");
    ensure!(check(&com2, &x, v, &open2, "read back")?, "an opening that was read back is rejected");
    // another prover with the same polynomial
    let again = setup::<G>(asked)?;
    let mut sc = again.scratch.clone();
    let c3 = ok(no_panic(|| <Pcs<G> as ExpanderPCS<Fe<G>>>::commit(&again.params, &mpi, &again.pk, &poly, &mut sc)), "commit")?;
    ensure!(bytes_of(&c3.unwrap())? == cb, "commitments to the same polynomial differ");
    // another value
    let d: Ch<G> = rnd_el(s);
    ensure!(!check(&com, &x, v + if d.is_zero() { Ch::<G>::ONE } else { d }, &open, "another value")?, "the opening is accepted for another value");
    // another point
    let mut y = x.clone();
    if simd > 0 && s.bool() { let k = s.below(simd); y.r_simd[k] += Ch::<G>::ONE } else { let k = s.below(n); y.rz[k] += Ch::<G>::ONE }
    if value::<G>(&a, &y) != v { s.label("another point"); ensure!(!check(&com, &y, v, &open, "another point")?, "the opening is accepted at another point") }
    // another polynomial
    let mut b = a.clone();
    let k = s.below(b.len());
    let mut l = b[k].unpack();
    let j = s.below(l.len());
    l[j] += Cf::<G>::ONE;
    b[k] = Sf::<G>::pack(&l);
    let mut sc = again.scratch.clone();
    let other = ok(no_panic(|| <Pcs<G> as ExpanderPCS<Fe<G>>>::commit(&again.params, &mpi, &again.pk, &MultiLinearPoly::new(b.clone()), &mut sc)), "commit")?.unwrap();
    ensure!(bytes_of(&other)? != cb, "polynomials that differ have the same commitment");
    let w = value::<G>(&b, &x);
    if w != v {
        s.label("another commitment");
        let r = check(&other, &x, v, &open, "another commitment")?;
        if r && kind == T::Whir { s.known("whir-opening-not-bound", WHIR) }
        ensure!(!r || kind == T::Whir, "the opening is accepted for the commitment to another polynomial")
    }
    // damaged openings; some fields of KZG openings are not read, Whir has a property of its own
    if kind == T::Whir || ob.is_empty() { s.evals(4); return Ok(()) }
    for _ in 0..4 {
        let mut m = ob.clone();
        damage(s, &mut m);
        if m == ob { continue }
        let o = match parse::<Op<G>>(&m) { Some((o, _)) => o, None => continue };
        if bytes_of(&o)? == ob { continue }
        let r = check(&com, &x, v, &o, "damaged")?;
        ensure!(!r || kind == T::KZG, "a damaged opening is accepted");
    }
    s.evals(8);
    Ok(())
}
/// A verifier that accepts any value: the sumcheck messages and the final constant are the prover's.
fn whir_forged<G: GKREngine>(s: &mut Src) -> R where Pcs<G>: ExpanderPCS<Fe<G>, Commitment = poly_commit::whir::WhirCommitment, Opening = poly_commit::whir::WhirOpening<Ch<G>>> {
    let mpi = MPIConfig::prover_new();
    let n = s.usize_in(2, 4);
    let mut st = setup::<G>(n)?;
    let a = coeffs::<Sf<G>>(s, n);
    let x = X::<G> { rz: point(s, n), r_simd: vec![], r_mpi: vec![] };
    let poly = MultiLinearPoly::new(a);
    let com = <Pcs<G> as ExpanderPCS<Fe<G>>>::commit(&st.params, &mpi, &st.pk, &poly, &mut st.scratch).unwrap();
    let mut o = <Pcs<G> as ExpanderPCS<Fe<G>>>::open(&st.params, &mpi, &st.pk, &poly, &x, &mut G::TranscriptConfig::new(), &st.scratch).unwrap();
    let target: Ch<G> = rnd_el(s);
    let mut t = G::TranscriptConfig::new();
    t.append_commitment(com.root.as_bytes());
    let mut run = target;
    let mut e = Ch::<G>::ONE;
    for (m, p) in o.sumcheck_messages.iter_mut().zip(&x.rz) {
        m.eval_at_1 = rnd_el(s);
        m.eval_at_2 = rnd_el(s);
        t.append_field_element(&m.eval_at_1);
        t.append_field_element(&m.eval_at_2);
        let r: Ch<G> = t.generate_field_element();
        run = quadratic(run - m.eval_at_1, m.eval_at_1, m.eval_at_2, r);
        e *= *p * r + (Ch::<G>::ONE - p) * (Ch::<G>::ONE - r);
    }
    // the order the verifier pairs challenges and point in is its own affair: try both
    let mut verdict = false;
    for e in [e, { let mut t = G::TranscriptConfig::new(); t.append_commitment(com.root.as_bytes()); let mut e = Ch::<G>::ONE; for (m, p) in o.sumcheck_messages.iter().zip(x.rz.iter().rev()) { t.append_field_element(&m.eval_at_1); t.append_field_element(&m.eval_at_2); let r: Ch<G> = t.generate_field_element(); e *= *p * r + (Ch::<G>::ONE - p) * (Ch::<G>::ONE - r) } e }] {
        let inv = match e.inv() { Some(i) => i, None => continue };
        for f in o.final_poly.iter_mut() { *f = run * inv }
        verdict |= ok(no_panic(|| <Pcs<G> as ExpanderPCS<Fe<G>>>::verify(&st.params, &st.vk, &com, &x, target, &mut G::TranscriptConfig::new(), &o)), "verify (forged)")?;
    }
    s.nontrivial();
    if verdict { s.known("whir-opening-not-bound", WHIR) }
    Ok(())
}
const WHIR: &str = "a Whir opening made up from random sumcheck messages and a fitting final constant is accepted for any value: nothing ties the last fold to the commitment";
/// Value at r of the quadratic through (0,a), (1,b), (2,c).
fn quadratic<FF: arith::Field>(a: FF, b: FF, c: FF, r: FF) -> FF {
    let half = FF::from(2u32).inv().unwrap();
    let h2 = (c + a) * half - b;
    a + (b - a - h2) * r + h2 * r * r
}
fn msg<FF: arith::Field>(e: &[FF]) -> IOPProverMessage<FF> {
    let mut b = (e.len() as u64).to_le_bytes().to_vec();
    for v in e { v.serialize_into(&mut b).unwrap() }
    IOPProverMessage::deserialize_from(&b[..]).unwrap()
}
fn evals_of<FF: arith::Field>(m: &IOPProverMessage<FF>) -> Vec<FF> {
    let mut b = vec![];
    m.serialize_into(&mut b).unwrap();
    Vec::<FF>::deserialize_from(&b[..]).unwrap()
}
struct W<A>(A);
impl<A> AsRef<A> for W<A> { fn as_ref(&self) -> &A { &self.0 } }
struct St<P: ExpanderPCS<E>, E: FieldEngine> { params: P::Params, pk: <P::SRS as StructuredReferenceString>::PKey, vk: <P::SRS as StructuredReferenceString>::VKey, scratch: P::ScratchPad }
fn batch<G: GKREngine, P: ExpanderPCS<Fe<G>>>(s: &mut Src) -> R where Ch<G>: ExtensionField<BaseField = Cf<G>> + SimdField<Scalar = Ch<G>>, G::FieldConfig: FieldEngine<SimdCircuitField = Ch<G>> {
    let mpi = MPIConfig::prover_new();
    let n = s.usize_in(2, 6);
    let k = s.usize_in(1, 5);
    let mut st = { let (params, pk, vk, scratch) = ok(no_panic(|| poly_commit::expander_pcs_init_testing_only::<Fe<G>, P>(n, &mpi)), "PCS setup")?; St::<P, Fe<G>> { params, pk, vk, scratch } };
    let polys: Vec<Vec<Ch<G>>> = (0..k).map(|_| { let mut c = coeffs::<Ch<G>>(s, n - 1); let free = s.bool(); let mut out = vec![]; for v in c.drain(..) { out.push(v); out.push(if free { rnd_el(s) } else { v }) } out }).collect();
    let mls: Vec<_> = polys.iter().map(|p| MultiLinearPoly::new(p.clone())).collect();
    let xs: Vec<X<G>> = (0..k).map(|_| X::<G> { rz: point(s, n), r_simd: vec![], r_mpi: vec![] }).collect();
    let mut coms = vec![];
    for p in &mls { coms.push(ok(no_panic(|| <P as ExpanderPCS<Fe<G>>>::commit(&st.params, &mpi, &st.pk, p, &mut st.scratch)), "commit")?.unwrap()) }
    let label = s.blob(4);
    let tr = || { let mut t = G::TranscriptConfig::new(); t.append_u8_slice(&label); t };
    let (vs, bo) = ok(no_panic(|| <P as ExpanderPCS<Fe<G>>>::multi_points_batch_open(&st.params, &mpi, &st.pk, &mls, &xs, &st.scratch, &mut tr())), "batch opening")?;
    let want: Vec<Ch<G>> = polys.iter().zip(&xs).map(|(p, x)| p.iter().zip(eq(&x.rz)).map(|(a, b)| *a * b).sum()).collect();
    ensure_eq!(vs, want, "values of {k} polynomials of {n} variables");
    s.note(|| format!("{k} polynomials of {n} variables"));
    s.nontrivial();
    let check = |vs: &[Ch<G>], xs: &[X<G>], coms: &[<P as ExpanderPCS<Fe<G>>>::Commitment], b: &<P as ExpanderPCS<Fe<G>>>::BatchOpening, what: &str| ok(no_panic(|| <P as ExpanderPCS<Fe<G>>>::multi_points_batch_verify(&st.params, &st.vk, &coms.iter().cloned().map(W).collect::<Vec<_>>(), xs, vs, b, &mut tr())), &format!("batch verify ({what})"));
    ensure!(check(&vs, &xs, &coms, &bo, "honest")?, "an honest batch opening is rejected");
    let bytes = bytes_of(&bo)?;
    let (b2, used) = match parse::<<P as ExpanderPCS<Fe<G>>>::BatchOpening>(&bytes) { Some(b) => b, None => return Err(Fail::Violation("a batch opening cannot be read back".into())) };
    ensure!(used == bytes.len() && bytes_of(&b2)? == bytes, "serialization changes a batch opening");
    let i = s.below(k);
    let d = { let d: Ch<G> = rnd_el(s); if d.is_zero() { Ch::<G>::ONE } else { d } };
    let mut bad = vs.clone();
    bad[i] += d;
    ensure!(!check(&bad, &xs, &coms, &bo, "another value")?, "a batch opening is accepted for another value");
    let mut ys = xs.clone();
    let z = s.below(n);
    ys[i].rz[z] += d;
    if polys[i].iter().zip(eq(&ys[i].rz)).map(|(a, b)| *a * b).sum::<Ch<G>>() != vs[i] { ensure!(!check(&vs, &ys, &coms, &bo, "another point")?, "a batch opening is accepted at another point") }
    if k > 1 {
        let j = (i + 1) % k;
        let mut cs = coms.clone();
        cs.swap(i, j);
        if bytes_of(&coms[i])? != bytes_of(&coms[j])? && polys[j].iter().zip(eq(&xs[i].rz)).map(|(a, b)| *a * b).sum::<Ch<G>>() != vs[i] { ensure!(!check(&vs, &xs, &cs, &bo, "swapped commitments")?, "a batch opening is accepted with commitments {i} and {j} swapped") }
    }
    let kzg = <P as ExpanderPCS<Fe<G>>>::PCS_TYPE == T::KZG;
    for _ in 0..4 {
        let mut m = bytes.clone();
        damage(s, &mut m);
        if let Some((b, _)) = parse::<<P as ExpanderPCS<Fe<G>>>::BatchOpening>(&m) {
            if bytes_of(&b)? == bytes { continue }
            let r = check(&vs, &xs, &coms, &b, "damaged")?;
            ensure!(!r || kzg, "a damaged batch opening is accepted");
        }
    }
    // a proof with messages of the wrong shape
    let (iop, at) = parse::<IOPProof<Ch<G>>>(&bytes).ok_or(Fail::Violation("the sumcheck part of a batch opening cannot be read".into()))?;
    let rebuild = |p: &IOPProof<Ch<G>>, tail: &[u8]| -> Result<<P as ExpanderPCS<Fe<G>>>::BatchOpening, Fail> { let mut b = bytes_of(p)?; b.extend_from_slice(tail); parse::<<P as ExpanderPCS<Fe<G>>>::BatchOpening>(&b).map(|v| v.0).ok_or(Fail::Discard) };
    for (p, what) in misshapen(s, &iop) { ensure!(!check(&vs, &xs, &coms, &rebuild(&p, &bytes[at..])?, &what)?, "a batch opening with {what} is accepted") }
    // values chosen to cancel under the merging challenge
    if k > 1 {
        let ell = (usize::BITS - (k - 1).leading_zeros()) as usize;
        let te = eq(&tr().generate_field_elements::<Ch<G>>(ell));
        let j = (i + 1) % k;
        let mut w = vs.clone();
        w[i] += d * te[j];
        w[j] -= d * te[i];
        if w != vs { ensure!(!check(&w, &xs, &coms, &bo, "cancelling values")?, "a batch opening is accepted for other values: the challenge that merges them does not depend on them") }
    }
    // made up: choose the point of the merged opening after the challenges
    let ell = (usize::BITS - (k - 1).leading_zeros()) as usize;
    let mut t = tr();
    absorb(&mut t, &xs.iter().map(|x| x.rz.clone()).collect::<Vec<_>>(), &bad);
    let tp = t.generate_field_elements::<Ch<G>>(ell);
    let te = eq(&tp);
    let mut p = iop.clone();
    let mut expect: Ch<G> = bad.iter().zip(&te).map(|(a, b)| *a * b).sum();
    for m in p.proofs.iter_mut() {
        let e = evals_of(m);
        *m = msg(&[expect - e[1], e[1], e[2]]);
        t.append_serializable_data(m);
        let r = t.generate_field_element::<Ch<G>>();
        expect = quadratic(expect - e[1], e[1], e[2], r);
    }
    // g'(a2) as a function of a2's lowest coordinate, which is linear if no polynomial depends on it
    let mut a2: Vec<Ch<G>> = point(s, n);
    let g = |a2: &[Ch<G>]| -> Vec<Ch<G>> { let mut out = vec![Ch::<G>::ZERO; 1 << n]; for (i, q) in polys.iter().enumerate() { let w: Ch<G> = te[i] * a2.iter().zip(&xs[i].rz).map(|(a, b)| *a * b + (Ch::<G>::ONE - a) * (Ch::<G>::ONE - b)).product::<Ch<G>>(); for (o, c) in out.iter_mut().zip(q) { *o += w * c } } out };
    let at_ = |a2: &[Ch<G>]| -> Ch<G> { g(a2).iter().zip(eq(a2)).map(|(a, b)| *a * b).sum() };
    a2[0] = Ch::<G>::ZERO; let y0 = at_(&a2);
    a2[0] = Ch::<G>::ONE; let y1 = at_(&a2);
    if let Some(i) = (y1 - y0).inv() {
        a2[0] = (expect - y0) * i;
        let gp = g(&a2);
        if at_(&a2) == expect {
            s.label("made up");
            p.point = a2.iter().rev().copied().collect();
            let x = X::<G> { rz: a2.clone(), r_simd: vec![], r_mpi: vec![] };
            // the transcript the verifier has at this point
            let o = ok(no_panic(|| <P as ExpanderPCS<Fe<G>>>::open(&st.params, &mpi, &st.pk, &MultiLinearPoly::new(gp), &x, &mut t, &st.scratch)), "open")?.unwrap();
            let forged = rebuild(&p, &bytes_of(&o)?)?;
            ensure!(!check(&bad, &xs, &coms, &forged, "made up")?, "a made-up batch opening is accepted for a wrong value: the merged point is the prover's choice");
        }
    }
    s.evals(8);
    Ok(())
}
fn absorb<FF: arith::Field>(t: &mut impl Transcript, points: &[Vec<FF>], values: &[FF]) {
    for x in points.iter().flatten().chain(values) { t.append_field_element(x) }
}
/// Several polynomials opened at one point.
fn batch_one<TR: Transcript, P>(s: &mut Src, min: usize) -> R where P: poly_commit::BatchOpeningPCS<Fr, Params = usize, Poly = MultiLinearPoly<Fr>, EvalPoint = Vec<Fr>>, P::Commitment: Clone {
    let n = s.usize_in(min, 6);
    let k = s.usize_in(1, 5);
    let (srs, n2) = ok(no_panic(|| P::gen_srs_for_testing(&n, ark_std::test_rng())), "SRS")?;
    ensure_eq!(n2, n, "supported variables");
    let (pk, vk) = srs.into_keys();
    let mut sp = P::init_scratch_pad(&n);
    let polys: Vec<MultiLinearPoly<Fr>> = (0..k).map(|_| MultiLinearPoly::new(coeffs::<Fr>(s, n))).collect();
    let x: Vec<Fr> = point(s, n);
    let mut coms = vec![];
    for p in &polys { coms.push(ok(no_panic(|| P::commit(&n, &pk, p, &mut sp)), "commit")?) }
    let label = s.blob(4);
    let tr = || { let mut t = TR::new(); t.append_u8_slice(&label); t };
    s.note(|| format!("{k} polynomials of {n} variables"));
    s.nontrivial();
    let e = eq(&x);
    let want: Vec<Fr> = polys.iter().map(|p| p.coeffs.iter().zip(&e).map(|(a, b)| *a * b).sum()).collect();
    // alone
    let (v, o) = ok(no_panic(|| P::open(&n, &pk, &polys[0], &x, &sp, &mut tr())), "open")?;
    ensure_eq!(v, want[0], "opened value");
    ensure!(ok(no_panic(|| P::verify(&n, &vk, &coms[0], &x, v, &o, &mut tr())), "verify")?, "an honest opening is rejected");
    ensure!(!ok(no_panic(|| P::verify(&n, &vk, &coms[0], &x, v + Fr::ONE, &o, &mut tr())), "verify")?, "an opening is accepted for another value");
    // together
    let (vs, o) = ok(no_panic(|| P::single_point_batch_open(&n, &pk, &polys, &x, &sp, &mut tr())), "batch opening")?;
    ensure_eq!(vs, want, "opened values");
    let check = |vs: &[Fr], x: &Vec<Fr>, coms: &[P::Commitment], what: &str| ok(no_panic(|| P::single_point_batch_verify(&n, &vk, coms, x, vs, &o, &mut tr())), &format!("batch verify ({what})"));
    ensure!(check(&vs, &x, &coms, "honest")?, "an honest batch opening is rejected");
    let i = s.below(k);
    let d = { let d: Fr = rnd_el(s); if d.is_zero() { Fr::ONE } else { d } };
    let mut w = vs.clone();
    w[i] += d;
    ensure!(!check(&w, &x, &coms, "another value")?, "a batch opening is accepted for another value");
    let mut y = x.clone();
    let z = s.below(n);
    y[z] += d;
    let e = eq(&y);
    if polys.iter().zip(&vs).any(|(p, v)| p.coeffs.iter().zip(&e).map(|(a, b)| *a * b).sum::<Fr>() != *v) { ensure!(!check(&vs, &y, &coms, "another point")?, "a batch opening is accepted at another point") }
    if k > 1 {
        let j = (i + 1) % k;
        let mut cs = coms.clone();
        cs.swap(i, j);
        if vs[i] != vs[j] { ensure!(!check(&vs, &x, &cs, "swapped commitments")?, "a batch opening is accepted with commitments {i} and {j} swapped") }
        let r: Fr = tr().generate_field_element();
        let pw = |k: usize| (0..k).map(|_| r).product::<Fr>();
        let mut w = vs.clone();
        w[i] += d * pw(j);
        w[j] -= d * pw(i);
        if w != vs { ensure!(!check(&w, &x, &coms, "cancelling values")?, "a batch opening is accepted for other values: the challenge that merges them does not depend on them") }
        s.label("several");
    }
    s.evals(6);
    Ok(())
}
/// Sumcheck proofs that do not have one message of three values per variable.
fn misshapen<FF: arith::Field>(s: &mut Src, p: &IOPProof<FF>) -> Vec<(IOPProof<FF>, String)> {
    let n = p.proofs.len();
    let k = s.below(n);
    let mut out = vec![];
    let mut q = p.clone(); q.proofs.truncate(k); out.push((q, format!("{k} of {n} messages")));
    let mut q = p.clone(); let mut e = evals_of(&q.proofs[k]); let keep = s.below(3); e.truncate(keep); q.proofs[k] = msg(&e); out.push((q, format!("{keep} values in message {k}")));
    let mut q = p.clone(); q.point.truncate(k); out.push((q, format!("{k} of {n} coordinates")));
    let mut q = p.clone(); q.proofs.clear(); q.point.clear(); out.push((q, "no messages".into()));
    out
}
fn sums<FF: ExtensionField, TR: Transcript>(s: &mut Src) -> R {
    let n = s.usize_in(1, 6);
    let k = s.usize_in(1, 4);
    let mut prod = SumOfProductsPoly::<FF>::new();
    let mut sum = FF::ZERO;
    let mut ps = vec![];
    for _ in 0..k {
        let vec_of = |s: &mut Src| -> Vec<FF> { let mut r = SplitMix(s.u64_any() | 1); let sparse = s.bool(); (0..1usize << n).map(|_| if sparse && r.next() % 2 == 0 { FF::ZERO } else { let b: Vec<u8> = (0..8).flat_map(|_| r.next().to_le_bytes()).collect(); FF::from_uniform_bytes(&b) }).collect() };
        let (a, b) = (vec_of(s), vec_of(s));
        sum += a.iter().zip(&b).map(|(x, y)| *x * y).sum::<FF>();
        prod.add_pair(MultiLinearPoly::new(a.clone()), MultiLinearPoly::new(b.clone()));
        ps.push((a, b));
    }
    let label = s.blob(4);
    let tr = || { let mut t = TR::new(); t.append_u8_slice(&label); t };
    let proof = ok(no_panic(|| SumCheck::<FF>::prove(&prod, &mut tr())), "prove")?;
    s.note(|| format!("{k} products of {n} variables"));
    if n > 1 && k > 1 { s.nontrivial() }
    ensure_eq!(SumCheck::<FF>::extract_sum(&proof), sum, "sum of the proof");
    let (okay, sub) = ok(no_panic(|| SumCheck::<FF>::verify(sum, &proof, n, &mut tr())), "verify")?;
    ensure!(okay, "an honest sumcheck is rejected");
    let at = |r: &[FF]| -> FF { let rev: Vec<FF> = r.iter().rev().copied().collect(); let e = eq(&rev); ps.iter().map(|(a, b)| a.iter().zip(&e).map(|(x, y)| *x * y).sum::<FF>() * b.iter().zip(&e).map(|(x, y)| *x * y).sum::<FF>()).sum() };
    ensure_eq!(sub.expected_evaluation, at(&sub.point), "value at the subclaim's point");
    ensure_eq!(sub.point, proof.point, "the prover's and the verifier's point");
    let mut rev = proof.point.clone();
    rev.reverse();
    ensure_eq!(proof.export_point_to_expander(), rev, "exported point");
    let d = { let d: FF = rnd_el(s); if d.is_zero() { FF::ONE } else { d } };
    let (okay, _) = ok(no_panic(|| SumCheck::<FF>::verify(sum + d, &proof, n, &mut tr())), "verify")?;
    ensure!(!okay, "a sumcheck is accepted for another sum");
    // a message that changes is refused or moves the subclaim off the polynomial
    let i = s.below(n);
    let mut e = evals_of(&proof.proofs[i]);
    let j = s.below(3);
    e[j] += d;
    if s.bool() && j < 2 { e[1 - j] -= d }
    let mut p = proof.clone();
    p.proofs[i] = msg(&e);
    let (okay, sub) = ok(no_panic(|| SumCheck::<FF>::verify(sum, &p, n, &mut tr())), "verify")?;
    ensure!(!okay || sub.expected_evaluation != at(&sub.point), "message {i} with another value {j} proves the same sum");
    let b = bytes_of(&proof)?;
    ensure!(parse::<IOPProof<FF>>(&b).is_some_and(|(q, k)| q == proof && k == b.len()), "a sumcheck proof is not read back");
    for (q, what) in misshapen(s, &proof) {
        if what.contains("coordinates") { continue }
        let (okay, _) = ok(no_panic(|| SumCheck::<FF>::verify(sum, &q, n, &mut tr())), &format!("verify with {what}"))?;
        ensure!(!okay, "a sumcheck with {what} is accepted");
    }
    s.evals(6);
    Ok(())
}
pub fn c37() -> Check {
    let mut c = Check::new("C37", "exploration", "random polynomials of 1 to 9 variables per commitment scheme and field, opened at random points, alone and in batches; then other values, points, commitments, damaged and made-up openings; sums of products through the generic sumcheck; non-trivial: a commitment was opened, or more than one product of more than one variable");
    macro_rules! each { ($($g:ident $q:expr),*) => { $( c = c.prop(concat!("open:", stringify!($g)), 4 * $q, 60 * $q, single::<$g>); )* } }
    each!(M31x16ConfigSha2RawVanilla 600, M31x1ConfigSha2RawVanilla 300, M31x16ConfigSha2OrionVanilla 60, BN254ConfigSha2Raw 400, BN254ConfigSha2Hyrax 400, BN254ConfigSha2KZG 300,
        GF2ExtConfigSha2Raw 400, GF2ExtConfigSha2Orion 40, Goldilocksx1ConfigSha2Raw 300, Goldilocksx1ConfigSha2Basefold 400, Goldilocksx8ConfigSha2Raw 300, Goldilocksx8ConfigSha2Orion 40,
        BabyBearx16ConfigSha2Raw 300, GoldilocksExt2x1ConfigSha2Basefold 200, GoldilocksExt3x1ConfigSha2Whir 300, GoldilocksExt4x1ConfigSha2Whir 300);
    c = c.prop("batch:Hyrax", 1000, 20000, batch::<BN254ConfigSha2Hyrax, Pcs<BN254ConfigSha2Hyrax>>).prop("batch:KZG", 1000, 20000, batch::<BN254ConfigSha2KZG, poly_commit::HyperUniKZGPCS<halo2curves::bn256::Bn256>>);
    c = c.prop("batch-one-point:Hyrax", 1000, 20000, |s| batch_one::<<BN254ConfigSha2Raw as GKREngine>::TranscriptConfig, poly_commit::HyraxPCS<halo2curves::bn256::G1Affine>>(s, 1)).prop("batch-one-point:KZG", 1000, 20000, |s| batch_one::<<BN254ConfigSha2Raw as GKREngine>::TranscriptConfig, poly_commit::HyperUniKZGPCS<halo2curves::bn256::Bn256>>(s, 2));
    c = c.prop("whir-made-up:Ext3", 20, 200, whir_forged::<GoldilocksExt3x1ConfigSha2Whir>).prop("whir-made-up:Ext4", 20, 200, whir_forged::<GoldilocksExt4x1ConfigSha2Whir>);
    macro_rules! sum { ($($g:ident),*) => { $( c = c.prop(concat!("sumcheck:", stringify!($g)), 2000, 40000, sums::<Ch<$g>, <$g as GKREngine>::TranscriptConfig>); )* } }
    sum!(M31x16ConfigSha2RawVanilla, BN254ConfigSha2Raw, Goldilocksx1ConfigSha2Raw, BabyBearx16ConfigSha2Raw, GoldilocksExt4x1ConfigSha2Whir);
    c
}
