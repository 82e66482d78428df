//! C38: the arithmetic gadgets of rust/jstprove_circuits compute exactly their integer function, and
//! no choice of the values a prover supplies (quotients, remainders, digits, selectors, lookup
//! results) makes them accept anything else.
use crate::fb::*;
use expander_compiler::frontend::{BN254Config, BasicAPI, CircuitField, Config, FieldArith, GoldilocksConfig, Variable};
use jstprove_circuits::circuit_functions::gadgets::*;
use jstprove_circuits::circuit_functions::gadgets::euclidean_division::{div_pos_integer_constant, div_pos_integer_pow2_constant};
use jstprove_circuits::circuit_functions::layers::LayerKind;
use jstprove_circuits::circuit_functions::utils::quantization::{RescalingContext, rescale};
use pbt::*;

type F<C> = CircuitField<C>;
pub trait Cfg: Config { const NAME: &'static str; const BITS: u32; const NB: usize; }
impl Cfg for BN254Config { const NAME: &'static str = "BN254"; const BITS: u32 = 253; const NB: usize = 64; }
impl Cfg for GoldilocksConfig { const NAME: &'static str = "Goldilocks"; const BITS: u32 = 63; const NB: usize = 31; }

/// Every forged assignment worth trying around one honest run.
pub fn attacks<C: Config>(s: &mut Src, sites: &[Site<F<C>>], n: usize) -> Vec<(String, Plan<F<C>>)> {
    let mut v = vec![];
    if sites.is_empty() { return v; }
    for _ in 0..n {
        let i = s.below(sites.len());
        let st = &sites[i];
        let mut p = Plan::<F<C>>::new();
        let mag = match s.draw(5) { 0 | 1 | 2 => 1i128, 3 => s.range(1, 64) as i128, 4 => 1i128 << s.draw(40), _ => s.draw(1 << 40) as i128 + 1 };
        let k = if s.bool() { mag } else { -mag };
        let desc;
        match st.name.as_str() {
            "int_div" if i + 1 < sites.len() && sites[i + 1].name == "mod" && sites[i + 1].args == st.args => {
                // another quotient with the remainder that keeps dividend = divisor * q + r
                if s.chance(1, 3) {
                    // another remainder, and the field element that is the quotient for it
                    let d = small::<C>(st.args[1]).unwrap_or(1).max(1);
                    let r = fe::<C>(s.draw((d - 1).min(1 << 62) as u64) as i128);
                    let Some(inv) = st.args[1].inv() else { continue };
                    p.insert((i, 0), (st.args[0] - r) * inv);
                    p.insert((i + 1, 0), r);
                    if r != sites[i + 1].outs[0] { v.push((format!("site {i}/{}: remainder {} with the field quotient", sites.len(), small::<C>(r).unwrap()), p)); }
                    continue;
                }
                p.insert((i, 0), st.outs[0] + fe::<C>(k));
                p.insert((i + 1, 0), sites[i + 1].outs[0] - fe::<C>(k) * st.args[1]);
                desc = format!("quotient{k:+}, remainder adjusted");
            }
            "greater_eq" | "lesser_eq" | "greater" | "lesser" | "eq" | "not_eq" | "bool_or" | "bool_and" => {
                let f = match s.draw(3) { 0 => fe::<C>(k), _ => F::<C>::one() - st.outs[0] };
                p.insert((i, 0), f);
                desc = "selector flipped".to_string();
            }
            "myhint.rangeproofhint" if st.outs.len() > 1 => {
                let j = s.below(st.outs.len() - 1);
                let c = small::<C>(st.args[1]).unwrap_or(1) as u32;
                let k = if mag == 1 { k } else { k.clamp(-8, 8) };
                p.insert((i, j), st.outs[j] + fe::<C>(k * (1i128 << c.min(60))));
                p.insert((i, j + 1), st.outs[j + 1] - fe::<C>(k));
                desc = "digit carried over".to_string();
            }
            "bit_and" | "shift_r" | "identity" | "mod" => { p.insert((i, 0), st.outs[0] + fe::<C>(k)); desc = format!("{} {k:+}", st.name); }
            _ => {
                let j = s.below(st.outs.len());
                let f = match s.draw(3) {
                    0 => st.outs[s.below(st.outs.len())],
                    1 if !st.args.is_empty() => st.args[s.below(st.args.len())],
                    _ => st.outs[j] + fe::<C>(k),
                };
                p.insert((i, j), f);
                desc = format!("{} output {j} of {} replaced", st.name, st.outs.len());
            }
        }
        if p.iter().all(|((i, j), f)| sites[*i].outs[*j] == *f) { continue; }
        v.push((format!("site {i}/{}: {desc}", sites.len()), p));
    }
    v
}

/// Run honestly, compare with the reference, then try forged assignments. `same` tells whether an
/// accepted run's outputs are legitimate.
pub fn decide<C: Config>(s: &mut Src, what: &str, inputs: &[i128], want: Option<&[i128]>, n_attacks: usize,
    f: impl Fn(&mut FB<C>, &[Variable]) -> Result<Vec<Variable>, String>) -> R {
    let ins: Vec<F<C>> = inputs.iter().map(|x| fe::<C>(*x)).collect();
    let seed = s.draw(u64::MAX);
    let (o, ()) = match no_panic(|| run::<C, ()>(&ins, Plan::<F<C>>::new(), seed, |b, v| f(b, v).map(|o| (o, ())))) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return Err(Fail::Violation(format!("{what}: building the circuit failed on {inputs:?}: {e}"))),
        Err(p) => return Err(Fail::Violation(format!("{what}: building the circuit panicked on {inputs:?}: {}", clip(p)))),
    };
    s.evals(1);
    let got = o.ints();
    if let Some(want) = want {
        ensure!(o.fails == 0, "{what}: the honest witness for inputs {inputs:?} fails {} of {} assertions ({:?})", o.fails, o.asserts, o.hint_errs);
        let w: Vec<Option<i128>> = want.iter().map(|x| Some(*x)).collect();
        ensure!(got == w, "{what}: on inputs {inputs:?} the circuit computes {got:?}, expected {want:?}");
    } else {
        ensure!(o.fails > 0, "{what}: inputs {inputs:?} are accepted (outputs {got:?})");
    }
    for (d, p) in attacks::<C>(s, &o.sites, n_attacks) {
        s.evals(1);
        let r = no_panic(|| run::<C, ()>(&ins, p, seed, |b, v| f(b, v).map(|o| (o, ()))));
        let Ok(Ok((a, ()))) = r else { continue };
        if a.fails == 0 {
            let g = a.ints();
            match want {
                Some(w) => ensure!(g == got, "{what}: inputs {inputs:?} should give {w:?}, but a forged witness giving {g:?} satisfies every constraint ({d})"),
                None => return Err(Fail::Violation(format!("{what}: inputs {inputs:?} must be rejected, but a forged witness satisfies every constraint ({d})"))),
            }
        }
    }
    Ok(())
}
fn st<T>(r: Result<T, impl std::fmt::Display>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

/// A value near the borders of [0, 2^n), signed.
fn around(s: &mut Src, n: usize, cap: u32) -> i128 {
    let m = 1i128 << n.min(cap as usize - 1);
    match s.draw(8) {
        0 => s.range(0, 3) as i128,
        1 => m - 1 - s.range(0, 2) as i128,
        2 => m + s.range(0, 2) as i128,
        3 => -(s.range(1, 4) as i128),
        4 => -(s.draw((m as u128).min(1 << 62) as u64) as i128) - 1,
        5 => m + s.draw((m as u128).min(1 << 62) as u64) as i128,
        6 => m * (1 + s.draw(20) as i128) + s.range(0, 2) as i128,
        _ => s.draw(((m as u128).min(1 << 62) - 1) as u64) as i128,
    }
}
fn range<C: Cfg>(s: &mut Src) -> R {
    let chunk = s.usize_in(1, 9);
    let maxn = if C::BITS < 100 { 40 } else { 100 };
    let k = s.usize_in(1, 5);
    let mut ns = vec![]; let mut vals = vec![]; let mut ok = true;
    let bad_at = s.below(k * 2);
    for i in 0..k {
        let n = match s.draw(3) { 0 => s.usize_in(1, chunk), 1 => chunk * s.usize_in(1, 4), _ => s.usize_in(1, maxn) }.min(maxn);
        let m = 1i128 << n;
        let v = if i == bad_at { around(s, n, 110) } else { match s.draw(3) { 0 => 0, 1 => m - 1, _ => (s.u64_any() as i128 * 0x1_0000_0001) & (m - 1) } };
        if v < 0 || v >= m { ok = false; }
        ns.push(n); vals.push(v);
    }
    if C::BITS < 100 && vals.iter().any(|v| v.abs() > 1 << 60) { return Err(Fail::Discard) }
    s.nontrivial();
    s.label(if ok { "every value in range" } else { "a value out of range" });
    let what = format!("{} range checks of {ns:?} bits with {chunk}-bit chunks", C::NAME);
    let want: Option<&[i128]> = if ok { Some(&[]) } else { None };
    decide::<C>(s, &what, &vals, want, 12, |b, v| {
        let mut c = LogupRangeCheckContext::new(chunk);
        c.init::<C, _>(b);
        for (i, n) in ns.iter().enumerate() { st(c.range_check::<C, _>(b, v[i], *n))?; }
        c.finalize::<C, _>(b);
        Ok(vec![])
    })
}
fn range_bits<C: Cfg>(s: &mut Src) -> R {
    let n = s.usize_in(1, if C::BITS < 100 { 40 } else { 100 });
    let v = around(s, n, 110);
    if C::BITS < 100 && v.abs() > 1 << 60 { return Err(Fail::Discard) }
    let ok = v >= 0 && v < 1i128 << n;
    s.nontrivial();
    s.label(if ok { "in range" } else { "out of range" });
    let one_shot = n <= 60 && s.chance(1, 4);
    let what = format!("{} {} of {n} bits", C::NAME, if one_shot { "one-shot range check" } else { "bit decomposition range check" });
    decide::<C>(s, &what, &[v], if ok { Some(&[]) } else { None }, 12, |b, x| {
        if one_shot { st(range_check::logup_range_check_pow2_unsigned::<C, _>(b, x[0], n))?; } else { st(range_check_pow2_unsigned::<C, _>(b, x[0], n))?; }
        Ok(vec![])
    })
}
fn signed(s: &mut Src, bits: usize) -> i128 {
    let m = 1i128 << bits;
    let r = match s.draw(6) { 0 => 0, 1 => 1.min(m - 1), 2 => m - 1, 3 => (s.range(0, 300) as i128).min(m - 1), 4 => s.draw(m.min(1 << 62) as u64 - 1) as i128, _ => 1i128 << s.draw(bits as u64 - 1) };
    if s.bool() { -r } else { r }
}
fn division<C: Cfg>(s: &mut Src) -> R {
    let chunk = s.usize_in(1, 10);
    let shift = s.usize_in(1, if C::BITS < 100 { 30 } else { 63 });
    let mode = s.draw(3);
    let kappa = s.usize_in(1, if C::BITS < 100 { 20 } else { 24 });
    let div: u32 = if mode == 2 { match s.draw(3) { 0 => 1u32 << s.draw(18), 1 => s.range(1, 9) as u32, 2 => (1u32 << s.range(2, 18)) + s.range(0, 2) as u32 - 1, _ => s.range(2, 100_000) as u32 } } else { 1u32 << kappa };
    let k = s.usize_in(1, 4);
    let sh = 1i128 << shift;
    // the shifted quotient has to lie in [0, 2^(shift+1))
    let mut vals = vec![]; let mut want = vec![]; let mut ok = true;
    for i in 0..k {
        let q = signed(s, shift);
        let r = match s.draw(3) { 0 => 0, 1 => div as i128 - 1, _ => s.draw(div as u64 - 1) as i128 };
        let q = if i == 0 && s.chance(1, 8) { ok = div == 1; if s.bool() { sh + s.range(0, 3) as i128 } else { -sh - 1 - s.range(0, 3) as i128 } } else { q };
        vals.push(q * div as i128 + r);
        want.push(if mode == 1 { q.max(0) } else { q });
    }
    // with a fused ReLU only |q| has to fit n_bits
    if mode == 1 && !ok { return Err(Fail::Discard) }
    if !ok { s.label("quotient outside its range"); }
    s.nontrivial();
    s.label(["rescale", "rescale with ReLU", "division by a constant", "division by a power of two"][mode as usize]);
    let what = format!("{} {} by {div} with shift 2^{shift}, {chunk}-bit chunks", C::NAME, ["rescale", "rescale with fused ReLU", "division by constant", "power-of-two division"][mode as usize]);
    let w = if ok { Some(&want[..]) } else { None };
    decide::<C>(s, &what, &vals, w, 12, |b, v| {
        let mut c = LogupRangeCheckContext::new(chunk);
        c.init::<C, _>(b);
        let mut out = vec![];
        if mode <= 1 {
            let ctx = st(RescalingContext::new::<C, _>(b, kappa, shift))?;
            for x in v { out.push(st(rescale::<C, _>(b, &ctx, &mut c, *x, mode == 1))?); }
        } else {
            let d = b.constant(div);
            let ds = b.constant(fe::<C>(div as i128 * sh));
            let sv = b.constant(fe::<C>(sh));
            for x in v {
                out.push(if mode == 2 { st(div_pos_integer_constant::<C, _>(b, &mut c, *x, d, div, ds, shift, sv))? }
                    else { st(div_pos_integer_pow2_constant::<C, _>(b, &mut c, *x, d, ds, kappa, shift, sv))? });
            }
        }
        c.finalize::<C, _>(b);
        Ok(out)
    })
}
fn minmax<C: Cfg>(s: &mut Src) -> R {
    let chunk = s.usize_in(1, 10);
    let shift = s.usize_in(2, if C::BITS < 100 { 30 } else { 60 });
    let mode = s.draw(3);
    let k = match mode { 2 => 1, 3 => 3, _ => *s.pick(&[1usize, 2, 2, 3, 4, 5]) };
    let mut v: Vec<i128> = (0..k).map(|_| signed(s, shift - 1)).collect();
    if k > 1 && s.chance(1, 4) { let i = s.below(k); let j = s.below(k); v[i] = v[j]; }
    let (lo, hi) = (s.bool(), s.bool());
    let want = match mode {
        0 => *v.iter().max().unwrap(),
        1 => *v.iter().min().unwrap(),
        2 => v[0].max(0),
        _ => { let mut x = v[0]; if lo { x = x.max(v[1]) } if hi { x = x.min(v[2]) } x }
    };
    s.nontrivial();
    s.label(["max", "min", "ReLU", "clip"][mode as usize]);
    let what = format!("{} {} with shift 2^{shift}, {chunk}-bit chunks (bounds {lo}/{hi})", C::NAME, ["max", "min", "ReLU", "clip"][mode as usize]);
    decide::<C>(s, &what, &v, Some(&[want]), 14, |b, x| {
        let mut c = LogupRangeCheckContext::new(chunk);
        c.init::<C, _>(b);
        let sc = st(ShiftRangeContext::new::<C, _>(b, LayerKind::Max, shift))?;
        let o = match mode {
            0 => st(constrained_max::<C, _>(b, &sc, &mut c, x))?,
            1 => st(constrained_min::<C, _>(b, &sc, &mut c, x))?,
            2 => st(max_min_clip::constrained_relu::<C, _>(b, &sc, &mut c, x[0]))?,
            _ => st(constrained_clip::<C, _>(b, &sc, &mut c, x[0], lo.then_some(x[1]), hi.then_some(x[2])))?,
        };
        c.finalize::<C, _>(b);
        Ok(vec![o])
    })
}
/// Exact integer quotient/remainder of the two-table exponential, from the tables' own entries.
fn exp_ref(x: i64, bits: usize, scale: u64) -> i128 {
    use jstprove_circuits::circuit_functions::hints::exp::compute_exp_quantized as e;
    let chunk = bits / 2;
    let (h, l) = (x >> chunk, x & ((1 << chunk) - 1));
    (e(h << chunk, scale) as i128) * (e(l, scale) as i128) / scale as i128
}
fn lookup<C: Cfg>(s: &mut Src) -> R {
    let k = s.usize_in(1, 4);
    let chunk = s.usize_in(2, 9);
    if s.bool() {
        let bits = s.usize_in(2, 8);
        let (m, a) = (s.range(-40, 40), s.range(-1000, 1000));
        let scale = 1u64 << s.draw(10);
        let half = 1i128 << (bits - 1);
        let mut xs: Vec<i128> = (0..k).map(|_| s.range(-(half as i64), half as i64 - 1) as i128).collect();
        let mut ok = true;
        if s.chance(1, 6) { xs[0] = if s.bool() { half + s.range(0, 3) as i128 } else { -half - 1 - s.range(0, 3) as i128 }; ok = false; }
        let g = move |x: i64, sc: u64| x * x * m + a - sc as i64;
        let want: Vec<i128> = xs.iter().map(|x| g(*x as i64, scale) as i128).collect();
        // the looked-up values come in as inputs; a wrong one must be refused
        let mut ins = xs.clone();
        ins.extend(want.iter());
        if ok && s.chance(1, 2) { let j = k + s.below(k); ins[j] += s.range(1, 5) as i128 * if s.bool() { 1 } else { -1 }; ok = false; }
        s.nontrivial();
        s.label(if ok { "right table entries" } else { "a key or value not in the table" });
        return decide::<C>(s, &format!("{} lookup table of {bits} bits", C::NAME), &ins, if ok { Some(&[]) } else { None }, 0, |b, v| {
            let mut t = FunctionLookupTable::build_signed::<C, _>(b, g, bits, scale);
            for i in 0..k { t.query(v[i], v[k + i]); }
            t.finalize::<C, _>(b);
            Ok(vec![])
        });
    }
    let bits = s.usize_in(4, 12);
    let ex = s.usize_in(1, bits - 2);
    let scale = 1u64 << ex;
    let half = 1i64 << (bits - 1);
    let xs: Vec<i128> = (0..k).map(|_| match s.draw(3) { 0 => -half, 1 => s.range(-3, 3).clamp(-half, half - 1), 2 => half - 1, _ => s.range(-half, half - 1) } as i128).collect();
    let want: Vec<i128> = xs.iter().map(|x| exp_ref(*x as i64, bits, scale)).collect();
    // entries that saturated at i64::MAX stand for nothing
    if want.iter().any(|w| *w >= i64::MAX as i128 / 2 || *w * scale as i128 >= 1i128 << if C::BITS < 100 { 62 } else { 100 }) { return Err(Fail::Discard) }
    for (x, w) in xs.iter().zip(&want) {
        let exact = (*x as f64 / scale as f64).exp() * scale as f64;
        // both factors are rounded to the nearest 1/scale
        let tol = 2.0 + exact / scale as f64 + (*x as f64 / scale as f64).exp().max(1.0) + (1i64 << (bits / 2)) as f64 / scale as f64 * 4.0 + ((1i64 << (bits / 2)) as f64 / scale as f64).exp();
        ensure!((exact - *w as f64).abs() <= tol, "{} two-table exponential of {x}/{scale} is {w}/{scale}, exact value is {exact}/{scale}", C::NAME);
    }
    s.nontrivial();
    s.label("two-table exponential");
    decide::<C>(s, &format!("{} two-table exponential of {bits} bits, scale 2^{ex}, {chunk}-bit chunks", C::NAME), &xs, Some(&want), 14, |b, v| {
        let mut c = LogupRangeCheckContext::new(chunk);
        c.init::<C, _>(b);
        let mut d = DecomposedExpLookup::build::<C, _>(b, bits, scale, jstprove_circuits::circuit_functions::hints::exp::compute_exp_quantized);
        let mut o = vec![];
        for x in v { o.push(st(d.verify_exp::<C, _>(b, &mut c, *x))?); }
        d.finalize::<C, _>(b);
        c.finalize::<C, _>(b);
        Ok(o)
    })
}
fn linalg<C: Cfg>(s: &mut Src) -> R {
    use jstprove_circuits::circuit_functions::gadgets::linear_algebra as la;
    use ndarray::{ArrayD, IxDyn};
    let (m, n, p) = (s.usize_in(1, 4), s.usize_in(1, 4), s.usize_in(1, 4));
    let mode = s.draw(4);
    let (sa, sb): (Vec<usize>, Vec<usize>) = if mode <= 1 { (vec![m, n], vec![n, p]) } else { (vec![m, n, p], vec![m, n, p]) };
    let ka: usize = sa.iter().product(); let kb: usize = sb.iter().product();
    let a: Vec<i128> = (0..ka).map(|_| signed(s, 20)).collect();
    let b: Vec<i128> = (0..kb).map(|_| signed(s, 20)).collect();
    let want: Vec<i128> = match mode {
        0 | 1 => (0..m).flat_map(|i| (0..p).map(move |j| (i, j))).map(|(i, j)| (0..n).map(|k| a[i * n + k] * b[k * p + j]).sum()).collect(),
        2 => a.iter().zip(&b).map(|(x, y)| x + y).collect(),
        3 => a.iter().zip(&b).map(|(x, y)| x - y).collect(),
        _ => a.iter().zip(&b).map(|(x, y)| x * y).collect(),
    };
    let reps = s.usize_in(1, 2);
    s.nontrivial();
    s.label(["product", "Freivalds product", "sum", "difference", "elementwise product"][mode as usize]);
    let ins: Vec<i128> = a.iter().chain(&b).copied().collect();
    decide::<C>(s, &format!("{} {} of {sa:?} and {sb:?}", C::NAME, ["matrix product", "Freivalds-checked matrix product", "sum", "difference", "elementwise product"][mode as usize]), &ins, Some(&want), 10, |bd, v| {
        let x = ArrayD::from_shape_vec(IxDyn(&sa), v[..ka].to_vec()).unwrap();
        let y = ArrayD::from_shape_vec(IxDyn(&sb), v[ka..].to_vec()).unwrap();
        let l = LayerKind::MatMul;
        let r = match mode {
            0 => st(la::matrix_multiplication::<C, _>(bd, x, y, l))?,
            1 => {
                let r = st(la::unconstrained_matrix_multiplication::<C, _>(bd, x.clone(), y.clone(), l.clone()))?;
                st(la::freivalds_verify_matrix_product::<C, _>(bd, &x, &y, &r, l, reps))?;
                r
            }
            2 => st(la::matrix_addition::<C, _>(bd, &x, y, l))?,
            3 => st(la::matrix_subtraction::<C, _>(bd, &x, y, l))?,
            _ => st(la::matrix_hadamard_product::<C, _>(bd, &x, y, l))?,
        };
        let want_shape: Vec<usize> = if mode <= 1 { vec![m, p] } else { vec![m, n, p] };
        if r.shape() != &want_shape[..] { return Err(format!("result has shape {:?}", r.shape())) }
        Ok(r.iter().copied().collect())
    })
}
pub fn c38() -> Check {
    Check::new("C38", "exploration", "a circuit with at least one constraint, run honestly and under forged witnesses")
        .assume("the circuits are evaluated on the values the constraints speak about; challenges are drawn from a seeded generator instead of the transcript")
        .prop("range checks (BN254)", 7200, 40000, range::<BN254Config>)
        .prop("range checks (Goldilocks)", 7200, 40000, range::<GoldilocksConfig>)
        .prop("bit and one-shot range checks (BN254)", 1800, 10000, range_bits::<BN254Config>)
        .prop("bit and one-shot range checks (Goldilocks)", 1800, 10000, range_bits::<GoldilocksConfig>)
        .prop("rescaling and division (BN254)", 5400, 40000, division::<BN254Config>)
        .prop("rescaling and division (Goldilocks)", 5400, 40000, division::<GoldilocksConfig>)
        .prop("lookup tables (BN254)", 2400, 15000, lookup::<BN254Config>)
        .prop("lookup tables (Goldilocks)", 2400, 15000, lookup::<GoldilocksConfig>)
        .prop("matrix gadgets (BN254)", 2400, 15000, linalg::<BN254Config>)
        .prop("matrix gadgets (Goldilocks)", 2400, 15000, linalg::<GoldilocksConfig>)
        .prop("max, min, ReLU, clip (BN254)", 5400, 40000, minmax::<BN254Config>)
        .prop("max, min, ReLU, clip (Goldilocks)", 5400, 40000, minmax::<GoldilocksConfig>)
}
