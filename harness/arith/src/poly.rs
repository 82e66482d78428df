//! C28: polynomials against their definitions. Variable i of a multilinear polynomial is bit i of the index.
use crate::model::*;
use arith::*;
use babybear::*;
use gf2_128::*;
use goldilocks::*;
use halo2curves::bn256::Fr;
use mersenne31::*;
use pbt::*;
use polynomials::*;
use std::ops::{Add, Mul};

fn el<F: Fl>(s: &mut Src) -> F { F::build(&gen_flat::<F>(s)) }
fn els<F: Fl>(s: &mut Src, n: usize) -> Vec<F> {
    if n > 16 && s.chance(3, 4) {
        let mut g = SplitMix(s.draw(u64::MAX));
        let mut rng = Rng(&mut g);
        (0..n).map(|_| F::random_unsafe(&mut rng)).collect()
    } else { (0..n).map(|_| el(s)).collect() }
}
pub struct Rng<'a>(pub &'a mut SplitMix);
impl rand::RngCore for Rng<'_> {
    fn next_u32(&mut self) -> u32 { self.0.next() as u32 }
    fn next_u64(&mut self) -> u64 { self.0.next() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.0.next() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

/// eq(index, r), straight from the definition.
fn chi<F: Field>(r: &[F], b: usize) -> F {
    let mut p = F::one();
    for (i, x) in r.iter().enumerate() { p = p * if b >> i & 1 == 1 { *x } else { F::one() - *x } }
    p
}
fn naive<F: Field>(c: &[F], r: &[F]) -> F {
    assert_eq!(c.len(), 1 << r.len());
    let mut a = F::ZERO;
    for (b, x) in c.iter().enumerate() { a = a + *x * chi(r, b) }
    a
}

fn mle<F: Fl>(s: &mut Src) -> R {
    let nv = s.usize_in(0, 7);
    let c: Vec<F> = els(s, 1 << nv);
    let r: Vec<F> = els(s, nv);
    if nv > 1 { s.nontrivial() }
    let p = MultiLinearPoly::new(c.clone());
    let want = naive(&c, &r);
    s.evals((1 << nv) as u64);
    ensure_eq!(p.get_num_vars(), nv, "get_num_vars");
    ensure_eq!(p.num_vars(), nv, "num_vars");
    ensure_eq!(p.hypercube_size(), 1 << nv, "hypercube_size");
    ensure!(p.hypercube_basis() == c && p.hypercube_basis_ref() == &c[..], "hypercube basis");
    ensure!(p.evaluate_jolt(&r) == want, "{}: evaluate_jolt nv={nv}", F::NAME);
    let extra = s.usize_in(0, 3);
    let mut scratch: Vec<F> = els(s, (1 << nv) + extra);
    ensure!(MultiLinearPoly::evaluate_with_buffer(&c, &r, &mut scratch) == want, "{}: evaluate_with_buffer nv={nv}", F::NAME);
    ensure!(p.evaluate::<F, F>(&r) == want, "{}: evaluate nv={nv}", F::NAME);
    let rev: Vec<F> = r.iter().rev().cloned().collect();
    ensure!(p.eval_reverse_order(&rev) == want, "{}: eval_reverse_order nv={nv}", F::NAME);
    // partial evaluation: the last k variables become the given ones, in order
    let k = s.usize_in(0, nv);
    let part = |pt: &[F], c: &[F]| -> Vec<F> {
        let lo = nv - pt.len();
        (0..1usize << lo).map(|b| {
            let mut a = F::ZERO;
            for t in 0..1usize << pt.len() { a = a + c[b | t << lo] * chi(pt, t) }
            a
        }).collect()
    };
    let pt = &r[nv - k..];
    let want_part = part(pt, &c);
    let mut q = p.clone();
    q.fix_variables(pt);
    ensure!(q.coeffs == want_part, "{}: fix_variables nv={nv} k={k}", F::NAME);
    let mut v = c.clone();
    { let mut m = MutRefMultiLinearPoly::from_ref(&mut v); m.fix_variables(pt); ensure_eq!(m.num_vars(), nv - k, "num_vars after fixing"); }
    ensure!(v == want_part, "{}: fix_variables by reference nv={nv} k={k}", F::NAME);
    if nv > 0 {
        let x = r[0];
        let mut q = p.clone(); q.fix_top_variable(x);
        ensure!(q.coeffs == part(&[x], &c), "{}: fix_top_variable nv={nv}", F::NAME);
        let mut v = c.clone(); MutRefMultiLinearPoly::from_ref(&mut v).fix_top_variable(x);
        ensure!(v == part(&[x], &c), "{}: fix_top_variable by reference nv={nv}", F::NAME);
        let mut q = p.clone(); q.fix_bottom_variable(&x);
        let want: Vec<F> = (0..1 << (nv - 1)).map(|i| c[2 * i] * (F::one() - x) + c[2 * i + 1] * x).collect();
        ensure!(q.coeffs == want, "{}: fix_bottom_variable nv={nv}", F::NAME);
        // fixing every variable bottom-up is evaluation
        let mut q = p.clone();
        for x in &r { q.fix_bottom_variable(x) }
        ensure!(q.coeffs == vec![naive(&c, &r)], "{}: fixing all variables bottom-up", F::NAME);
    }
    // monomial coefficients
    let mono = p.interpolate_over_hypercube();
    ensure_eq!(mono.len(), c.len(), "monomial count");
    for (b, e) in c.iter().enumerate() {
        let mut a = F::ZERO;
        for (t, m) in mono.iter().enumerate() { if t & !b == 0 { a = a + *m } }
        ensure!(a == *e, "{}: interpolate_over_hypercube nv={nv}: the monomials give another value at corner {b}", F::NAME);
    }
    let mut q = p.clone(); q.interpolate_over_hypercube_in_place();
    ensure!(q.coeffs == mono, "{}: interpolation in place", F::NAME);
    let mut v = c.clone(); MutRefMultiLinearPoly::from_ref(&mut v).interpolate_over_hypercube_in_place();
    ensure!(v == mono && RefMultiLinearPoly::from_ref(&c).interpolate_over_hypercube() == mono, "{}: interpolation by reference", F::NAME);
    let rf = RefMultiLinearPoly::from_ref(&c);
    ensure!(rf.evaluate::<F, F>(&r) == want && rf.num_vars() == nv && rf.hypercube_basis() == c, "{}: reference evaluate", F::NAME);
    // lifting: same values on the old corners, zero on the new ones
    let up = s.usize_in(0, 2);
    let mut q = p.clone(); q.lift_to_n_vars(nv + up);
    let mut w = c.clone(); w.resize(1 << (nv + up), F::ZERO);
    ensure!(q.coeffs == w, "{}: lift_to_n_vars", F::NAME);
    let mut v = c.clone(); MutRefMultiLinearPoly::from_ref(&mut v).lift_to_n_vars(nv + up);
    ensure!(v == w, "{}: lift_to_n_vars by reference", F::NAME);
    // linear structure
    let d: Vec<F> = els(s, 1 << nv);
    let x: F = el(s);
    let t = &(p.clone() + &MultiLinearPoly::new(d.clone())) * &x;
    for i in 0..1 << nv { ensure!(t[i] == (c[i] + d[i]) * x, "{}: sum and scaling", F::NAME) }
    Ok(())
}

/// Coefficients in one field, point in another, value in a third.
fn mixed<C, P, E>(s: &mut Src) -> R
where C: Fl, P: Fl + Mul<C, Output = E>, E: Fl + From<C> + Mul<C, Output = E> + Add<C, Output = E> + Mul<P, Output = E> {
    let nv = s.usize_in(0, 6);
    let c: Vec<C> = els(s, 1 << nv);
    let r: Vec<P> = els(s, nv);
    if nv > 1 { s.nontrivial() }
    let mut want = E::ZERO;
    for (b, x) in c.iter().enumerate() { want = want + E::from(*x) * chi(&r, b) }
    ensure!(MultiLinearPoly::new(c.clone()).evaluate::<P, E>(&r) == want, "{} at {}: evaluate nv={nv}", C::NAME, P::NAME);
    let mut scratch = vec![E::one(); (1 << nv) + 1];
    ensure!(RefMultiLinearPoly::from_ref(&c).evaluate_with_buffer(&r, &mut scratch) == want, "{} at {}: reference evaluate nv={nv}", C::NAME, P::NAME);
    let mut v = c.clone();
    ensure!(MutRefMultiLinearPoly::from_ref(&mut v).evaluate::<P, E>(&r) == want && v == c, "{} at {}: mutable reference evaluate nv={nv}", C::NAME, P::NAME);
    Ok(())
}

fn eq<F: Fl>(s: &mut Src) -> R {
    let nv = s.usize_in(0, 8);
    let r: Vec<F> = els(s, nv);
    let y: Vec<F> = els(s, nv);
    let x: F = el(s);
    if nv > 1 { s.nontrivial() }
    let n = 1usize << nv;
    s.evals(n as u64);
    let want: Vec<F> = (0..n).map(|b| chi(&r, b)).collect();
    let scaled: Vec<F> = want.iter().map(|w| *w * x).collect();
    ensure!(EqPolynomial::build_eq_x_r(&r) == want, "{}: build_eq_x_r nv={nv}", F::NAME);
    ensure!(EqPolynomial::evals_jolt(&r) == want, "{}: evals_jolt nv={nv}", F::NAME);
    ensure!(EqPolynomial::scaled_evals_jolt(&r, &x) == scaled, "{}: scaled_evals_jolt nv={nv}", F::NAME);
    let extra = s.usize_in(0, 2);
    let junk: F = el(s);
    let mut buf = vec![junk; n + extra];
    EqPolynomial::build_eq_x_r_with_buf(&r, &x, &mut buf);
    ensure!(buf[..n] == scaled[..] && buf[n..].iter().all(|b| *b == junk), "{}: build_eq_x_r_with_buf nv={nv}", F::NAME);
    let h = nv / 2;
    let mut buf = vec![junk; n + extra];
    let (mut b1, mut b2) = (vec![junk; 1 << h], vec![junk; 1 << (nv - h)]);
    EqPolynomial::eq_eval_at(&r, &x, &mut buf, &mut b1, &mut b2);
    ensure!(buf[..n] == scaled[..] && buf[n..].iter().all(|b| *b == junk), "{}: eq_eval_at nv={nv}", F::NAME);
    let mut e = F::one();
    for (a, b) in r.iter().zip(&y) { e = e * (*a * *b + (F::one() - *a) * (F::one() - *b)) }
    ensure!(EqPolynomial::eq_vec(&r, &y) == e, "{}: eq_vec nv={nv}", F::NAME);
    let i = s.below(n);
    ensure!(EqPolynomial::ith_eq_vec_elem(&r, i) == want[i], "{}: ith_eq_vec_elem nv={nv} i={i}", F::NAME);
    // the univariate with the eq coefficients
    let u = EqUnivariatePoly::new(r.clone());
    ensure_eq!(u.degree(), n - 1, "degree");
    let (mut a, mut xp) = (F::ZERO, F::one());
    for w in &want { a = a + *w * xp; xp = xp * x }
    ensure!(u.evaluate(x) == a, "{}: EqUnivariatePoly::evaluate nv={nv}", F::NAME);
    Ok(())
}

fn ueval<F: Field>(c: &[F], x: F) -> F {
    let (mut a, mut p) = (F::ZERO, F::one());
    for w in c { a = a + *w * p; p = p * x }
    a
}
fn pmul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() { return vec![] }
    let mut o = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() { o[i + j] = o[i + j] + *x * *y } }
    o
}

fn uni<F: Fl>(s: &mut Src) -> R {
    let n = s.usize_in(1, 24);
    let c: Vec<F> = els(s, n);
    let x: F = el(s);
    if n > 1 { s.nontrivial() }
    let p = UnivariatePoly::new(c.clone());
    ensure!(p.evaluate(x) == ueval(&c, x), "{}: evaluate", F::NAME);
    ensure!(UnivariatePoly::<F>::new(vec![]).evaluate(x).is_zero(), "{}: the empty polynomial is not zero", F::NAME);
    let (q, rem) = p.degree_one_quotient(x);
    let mut back = pmul(&q.coeffs, &[-x, F::one()]);
    back[0] = back[0] + rem;
    ensure!(back[..n] == c[..] && back[n..].iter().all(|e| e.is_zero()), "{}: q(X)(X-a)+r is not f(X)", F::NAME);
    ensure!(rem == ueval(&c, x) && q.coeffs.len() == n, "{}: remainder", F::NAME);
    // division by a vanishing polynomial
    let k = s.usize_in(0, 4);
    let mut roots: Vec<F> = els(s, k);
    if k > 1 && s.chance(1, 4) { roots[1] = roots[0]; s.label("repeated root") }
    let mut prod = c.clone();
    for r in &roots { prod = pmul(&prod, &[-*r, F::one()]) }
    let pad = s.usize_in(0, 3);
    prod.resize(prod.len() + pad, F::ZERO);
    let len = prod.len();
    let mut d = UnivariatePoly::new(prod);
    d.root_vanishing_quotient(&roots);
    ensure!(d.coeffs.len() == len && d.coeffs[..n] == c[..] && d.coeffs[n..].iter().all(|e| e.is_zero()), "{}: root_vanishing_quotient with {k} roots", F::NAME);
    // linear structure, different lengths
    let m = s.usize_in(0, 24);
    let e: Vec<F> = els(s, m);
    let mut t = p.clone();
    t += &UnivariatePoly::new(e.clone());
    for i in 0..n.max(m) {
        let w = c.get(i).copied().unwrap_or(F::ZERO) + e.get(i).copied().unwrap_or(F::ZERO);
        ensure!(t[i] == w, "{}: sum of polynomials of {n} and {m} coefficients", F::NAME);
    }
    ensure_eq!(t.coeffs.len(), n.max(m), "length of the sum");
    let mut t = p.clone(); t *= x;
    for i in 0..n { ensure!(t[i] == c[i] * x, "{}: scaling", F::NAME) }
    Ok(())
}

fn lagrange<F: Fl + FFTField>(s: &mut Src) -> R {
    let k = s.usize_in(0, 5);
    let n = 1usize << k;
    let c: Vec<F> = els(s, n);
    if k > 0 { s.nontrivial() }
    let l = UnivariatePoly::new(c.clone()).fft();
    let w = F::two_adic_generator(k);
    let mut x = F::one();
    for i in 0..n {
        ensure!(l.evals[i] == ueval(&c, x) && l[i] == l.evals[i], "{}: fft value {i} of {n}", F::NAME);
        if s.chance(1, 4) { ensure!(l.evaluate(x) == l.evals[i], "{}: evaluation on the domain, point {i} of {n}", F::NAME); }
        x = x * w;
    }
    let y: F = el(s);
    ensure!(l.evaluate(y) == ueval(&c, y), "{}: Lagrange evaluation, {n} points", F::NAME);
    ensure!(l.ifft().coeffs == c, "{}: ifft", F::NAME);
    Ok(())
}

fn sop<F: Fl>(s: &mut Src) -> R {
    let n = s.usize_in(0, 4);
    let mut p = SumOfProductsPoly::<F>::new();
    let mut pairs = vec![];
    let mut top = 0;
    for _ in 0..n {
        let nv = s.usize_in(0, 4);
        top = top.max(nv);
        let (f, g): (Vec<F>, Vec<F>) = (els(s, 1 << nv), els(s, 1 << nv));
        p.add_pair(MultiLinearPoly::new(f.clone()), MultiLinearPoly::new(g.clone()));
        pairs.push((f, g));
    }
    if n > 1 && top > 0 { s.nontrivial() }
    ensure_eq!(p.num_vars(), top, "num_vars");
    let (mut sum, mut cube) = (F::ZERO, F::ZERO);
    for (f, g) in &pairs { for (a, b) in f.iter().zip(g) { sum = sum + *a * *b } }
    ensure!(p.sum() == sum, "{}: sum", F::NAME);
    let up = top + s.usize_in(0, 1);
    // the point has the most significant variable first; smaller polynomials sit at the bottom of the cube
    let at = |r: &[F]| -> F {
        let rev: Vec<F> = r.iter().rev().cloned().collect();
        let mut a = F::ZERO;
        for (f, g) in &pairs {
            let (mut f, mut g) = (f.clone(), g.clone());
            f.resize(1 << up, F::ZERO); g.resize(1 << up, F::ZERO);
            a = a + naive(&f, &rev) * naive(&g, &rev);
        }
        a
    };
    let r: Vec<F> = els(s, up);
    ensure!(p.evaluate(&r) == at(&r), "{}: evaluate at {up} variables with pair sizes {:?}", F::NAME, pairs.iter().map(|p| p.0.len()).collect::<Vec<_>>());
    for b in 0..1usize << up {
        let c: Vec<F> = (0..up).map(|i| if b >> i & 1 == 1 { F::one() } else { F::ZERO }).collect();
        cube = cube + p.evaluate(&c);
    }
    ensure!(cube == sum, "{}: sum differs from adding up the values on the hypercube", F::NAME);
    Ok(())
}

macro_rules! all { ($c:expr, $f:ident, $pre:expr, $q:expr, $t:expr, [$($ty:ty),*]) => { { let mut c = $c; $( c = c.prop(concat!($pre, stringify!($ty)), $q, $t, $f::<$ty>); )* c } } }
pub fn c28() -> Check {
    let c = Check::new("C28", "exploration", "polynomials of up to 8 variables or 24 coefficients with edge-biased coefficients and points; non-trivial: at least two variables or coefficients");
    let c = all!(c, mle, "multilinear:", 18000, 72000, [M31, M31Ext3, Goldilocks, GoldilocksExt2, BabyBearExt3, GF2_128, Fr, M31x16, GF2_128x8]);
    let c = all!(c, eq, "eq:", 18000, 72000, [M31, M31Ext3, Goldilocks, GoldilocksExt2, BabyBear, BabyBearExt3, GF2_128, Fr]);
    let c = all!(c, uni, "univariate:", 18000, 72000, [M31, M31Ext3, Goldilocks, GoldilocksExt2, BabyBear, GF2_128, Fr]);
    let c = all!(c, lagrange, "lagrange:", 12000, 48000, [Goldilocks, GoldilocksExt2, BabyBear, BabyBearExt3, Fr]);
    let c = all!(c, sop, "sum of products:", 12000, 48000, [M31, M31Ext3, Goldilocks, GF2_128, Fr]);
    c.prop("mixed:M31 at Ext3", 18000, 72000, mixed::<M31, M31Ext3, M31Ext3>)
        .prop("mixed:M31x16 at Ext3x16", 9000, 40000, mixed::<M31x16, M31Ext3x16, M31Ext3x16>)
        .prop("mixed:Goldilocks at Ext2", 18000, 72000, mixed::<Goldilocks, GoldilocksExt2, GoldilocksExt2>)
        .prop("mixed:BabyBear at Ext3", 18000, 72000, mixed::<BabyBear, BabyBearExt3, BabyBearExt3>)
        .prop("mixed:Fr", 18000, 72000, mixed::<Fr, Fr, Fr>)
}
