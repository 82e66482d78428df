//! C31: compiled circuits compute what the source program says. C32: hint values cannot be forged.
use crate::ir::*;
use expander_compiler::circuit::config::SIMDField;
use expander_compiler::circuit::ir::hint_normalized;
use expander_compiler::circuit::layered::{self, witness::{Witness, WitnessValues}, CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::{compile_with_options_and_progress, CompileOptions};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::{BN254Config, BabyBearConfig, Config, Error, GF2Config, GoldilocksConfig, M31Config, WitnessSolver};
use expander_compiler::frontend::{Field, HintCaller};
use expander_compiler::hints::BuiltinHintIds;
use pbt::*;

pub struct Compiled<C: Config, T: InputType> { pub solver: WitnessSolver<C>, pub lc: layered::Circuit<C, T> }
pub fn options(s: &mut Src) -> CompileOptions {
    let mut o = CompileOptions::default().with_opt_level(3 - s.below(3));
    if s.chance(1, 3) { o = o.with_mul_fanout_limit(s.usize_in(2, 6)) }
    if s.chance(1, 4) { o = o.without_input_reorder() }
    o
}
pub fn compile<C: Config, T: InputType>(root: &hint_src::RootCircuit<C>, o: &CompileOptions) -> Result<Compiled<C, T>, Error> {
    let (irw, lc): (hint_normalized::RootCircuit<C>, layered::Circuit<C, T>) = compile_with_options_and_progress(root, o.clone(), Some(&|_| ()))?;
    Ok(Compiled { solver: WitnessSolver { circuit: irw }, lc })
}
pub use expander_compiler::circuit::ir::source as hint_src;

/// The first (scalar) witness as (inputs, public inputs).
pub fn rows<C: Config>(w: &Witness<C>) -> Vec<(Vec<F<C>>, Vec<F<C>>)> { w.iter_scalar().collect() }
pub fn scalar_witness<C: Config>(inputs: &[F<C>], public: &[F<C>]) -> Witness<C> {
    Witness { num_witnesses: 1, num_inputs_per_witness: inputs.len(), num_public_inputs_per_witness: public.len(), values: WitnessValues::Scalar(inputs.iter().chain(public).cloned().collect()) }
}
pub fn other_inputs<C: Config>(s: &mut Src, base: &[F<C>]) -> Vec<F<C>> {
    let all = s.chance(1, 3);
    let k = if base.is_empty() { 0 } else { s.below(base.len()) };
    base.iter().enumerate().map(|(i, x)| if all || i == k { el::<C>(s) } else { *x }).collect()
}

fn semantics<C: Config, T: InputType>(s: &mut Src) -> R {
    let big = s.chance(1, 5);
    let p = program::<C>(s, Shape { max_subs: 3, max_insns: if big { 24 } else { 8 }, unconstrained: true, terms: 4 });
    if weight(&p.root) > 3000 { return Err(Fail::Discard) }
    let o = options(s);
    s.note(|| format!("{o:?} inputs {:?} public {:?} program {}", p.inputs, p.public, describe(&p.root)));
    ensure!(p.root.validate().is_ok(), "generator produced an invalid program: {:?}", p.root.validate());
    let c = match no_panic(|| compile::<C, T>(&p.root, &o)).map_err(|e| Fail::Violation(format!("compilation panicked: {e}")))? {
        Ok(c) => c,
        Err(Error::UserError(e)) => { s.label("refused at compile time"); return allowed::<C>(s, &p, &e) }
        Err(e) => return Err(Fail::Violation(format!("compilation failed on a valid program: {e:?}"))),
    };
    if p.root.circuits.len() > 1 || p.root.circuits[&0].instructions.len() > 3 { s.nontrivial() }
    ensure!(c.lc.validate().is_ok(), "invalid layered circuit: {:?}", c.lc.validate());
    ensure_eq!(c.lc.num_actual_outputs - c.lc.expected_num_output_zeroes, p.root.circuits[&0].outputs.len(), "number of outputs");
    ensure_eq!(c.solver.circuit.input_size(), p.inputs.len(), "solver inputs");
    let mut rnd = SplitMix(s.u64_any() | 1);
    let mut batch = vec![];
    for t in 0..4 {
        let inputs = if t == 0 { p.inputs.clone() } else { other_inputs::<C>(s, &p.inputs) };
        let public = if t < 2 { p.public.clone() } else { other_inputs::<C>(s, &p.public) };
        let (want, f) = run::<C>(&p.root, &inputs, &public);
        s.label(if f.violated { "inputs that break a constraint" } else { "inputs that satisfy every constraint" });
        let w = no_panic(|| c.solver.solve_witness_from_raw_inputs(inputs.clone(), public.clone(), &Hints));
        let w = match w {
            Ok(Ok(w)) => w,
            Ok(Err(e)) => { ensure!(f.overflow, "witness solving failed on inputs {inputs:?} public {public:?}: {e:?}"); continue }
            Err(e) => return Err(Fail::Violation(format!("witness solving panicked on inputs {inputs:?} public {public:?}: {e}"))),
        };
        let r = rows(&w);
        ensure_eq!(r.len(), 1, "witness count");
        ensure_eq!(r[0].1, public, "public inputs in the witness");
        ensure_eq!(r[0].0.len(), c.lc.input_size(), "witness length");
        let (got, ok) = eval(&c.lc, &r[0].0, &r[0].1, &mut rnd);
        if f.violated || !f.dead { ensure_eq!(ok, !f.violated, "constraint verdict of the compiled circuit on inputs {inputs:?} public {public:?}") }
        if ok { ensure_eq!(got, want, "outputs of the compiled circuit on inputs {inputs:?} public {public:?}") }
        // the library's own evaluation agrees
        let (lok, lout) = c.lc.run_with_output(&w);
        ensure_eq!((lok, lout), (vec![ok], vec![got.clone()]), "run_with_output on inputs {inputs:?}");
        ensure_eq!(c.lc.run(&w), vec![ok], "run on inputs {inputs:?}");
        let cv = c.lc.eval_constraint_values(r[0].0.clone(), &r[0].1);
        ensure_eq!(cv.len(), c.lc.expected_num_output_zeroes, "number of constraint values");
        ensure_eq!(cv.iter().all(|x| x.is_zero()), ok, "eval_constraint_values on inputs {inputs:?}");
        batch.push((inputs, public, got, ok, r[0].clone()));
    }
    // several witnesses at once give the same rows and verdicts (packing included)
    if !batch.is_empty() {
        let k = s.usize_in(1, 2 * <SIMDField<C> as arith::SimdField>::PACK_SIZE.min(20) + 1);
        let w = no_panic(|| c.solver.solve_witnesses_from_raw_inputs(k, |i| { let b = &batch[(i * 7 + i / 3) % batch.len()]; (b.0.clone(), b.1.clone()) }, &Hints))
            .map_err(|e| Fail::Violation(format!("solving {k} witnesses panicked: {e}")))?
            .map_err(|e| Fail::Violation(format!("solving {k} witnesses failed: {e:?}")))?;
        let r = rows(&w);
        ensure_eq!(r.len(), k, "number of witnesses");
        let (lok, lout) = c.lc.run_with_output(&w);
        ensure_eq!((lok.len(), lout.len()), (k, k), "number of verdicts");
        for i in 0..k {
            let b = &batch[(i * 7 + i / 3) % batch.len()];
            ensure_eq!(r[i], b.4, "witness {i} of {k}");
            ensure_eq!(lok[i], b.3, "verdict {i} of {k}");
            ensure_eq!(lout[i], b.2, "outputs {i} of {k}");
        }
    }
    // compilation is deterministic
    let d = compile::<C, T>(&p.root, &o).map_err(|e| Fail::Violation(format!("second compilation failed: {e:?}")))?;
    ensure!(d.lc == c.lc, "two compilations give different layered circuits");
    ensure!(d.solver.circuit == c.solver.circuit, "two compilations give different witness solvers");
    Ok(())
}
/// A valid program may be refused at compile time only for a reason that holds for all inputs.
fn allowed<C: Config>(s: &mut Src, p: &Program<C>, e: &str) -> R {
    let mut runs = vec![];
    for t in 0..5 {
        let inputs: Vec<_> = if t == 0 { p.inputs.clone() } else { p.inputs.iter().map(|_| el::<C>(s)).collect() };
        let public: Vec<_> = if t == 0 { p.public.clone() } else { p.public.iter().map(|_| el::<C>(s)).collect() };
        runs.push(run::<C>(&p.root, &inputs, &public).1);
    }
    let reason_holds = if e.ends_with("circuit has no inputs") { true } // an optimised circuit that uses none of its inputs
        else if e.ends_with("root circuit should have constraints or outputs") { p.root.circuits[&0].outputs.is_empty() }
        else if e.ends_with("constraint is not zero") { runs.iter().all(|f| f.violated || f.dead) }
        else if e.ends_with("division by zero") || e.ends_with("division by zero constant") { runs.iter().all(|f| f.divzero) }
        else { false };
    ensure!(reason_holds, "a valid program was refused: {e}");
    Ok(())
}

/// A hint caller that answers built-in hints the way a dishonest prover would.
struct Forger<C: Config> { rnd: std::sync::Mutex<SplitMix>, every: u64, _c: std::marker::PhantomData<C> }
const DISGUISE: usize = 1 << 40;
impl<C: Config> HintCaller<F<C>> for Forger<C> {
    fn call(&self, id: usize, args: &[F<C>], n_out: usize) -> Result<Vec<F<C>>, Error> {
        let mut r = self.rnd.lock().unwrap();
        let lie = r.next() % self.every == 0;
        if id == DISGUISE + BuiltinHintIds::ToBinary as usize {
            let mut x = n::<C>(&args[0]);
            let m = modulus::<C>();
            let flip = if lie { match r.next() % 4 {
                0 | 1 => { if let Some(y) = x.checked_add(m) { x = y } 0 }      // the next value with the same residue
                2 => 1u64 << (r.next() % n_out.min(60) as u64),
                _ => 3,
            } } else { 0 };
            return Ok((0..n_out).map(|i| { let b = if i < 256 { (x >> (i as u32)).as_u64() & 1 } else { 0 }; F::<C>::from((b ^ if i < 64 { flip >> i & 1 } else { 0 }) as u32) }).collect());
        }
        ensure_div(id);
        let honest = match args[1].inv() { Some(i) => args[0] * i, None => F::<C>::zero() };
        if !lie { return Ok(vec![honest]) }
        let one = F::<C>::one();
        Ok(vec![match r.next() % 6 { 0 => F::<C>::zero(), 1 => one, 2 => -one, 3 => honest + one, 4 => -honest, _ => z::<C>(ethnum::U256::from(r.next()) % modulus::<C>()) }])
    }
}
fn ensure_div(id: usize) { assert_eq!(id, DISGUISE + BuiltinHintIds::Div as usize, "harness: unexpected hint") }
/// The same witness solver with its built-in hints replaced by calls to the forger.
fn corrupt<C: Config>(w: &WitnessSolver<C>) -> WitnessSolver<C> {
    let mut c = w.circuit.clone();
    for x in c.circuits.values_mut() { for i in x.instructions.iter_mut() { if let hint_normalized::Instruction::Hint { hint_id, .. } = i { *hint_id += DISGUISE } } }
    WitnessSolver { circuit: c }
}
/// Values a forger would write over a hint.
fn forge<C: Config>(s: &mut Src, honest: &F<C>, pool: &[F<C>]) -> F<C> {
    let one = F::<C>::one();
    match s.below(8) {
        0 => F::<C>::zero(), 1 => one, 2 => -one, 3 => *honest + one, 4 => -*honest,
        5 => if pool.is_empty() { one } else { pool[s.below(pool.len())] },
        6 => honest.inv().unwrap_or(one),
        _ => el::<C>(s),
    }
}
fn forgery<C: Config, T: InputType>(s: &mut Src) -> R {
    let big = s.chance(1, 6);
    let p = program::<C>(s, Shape { max_subs: 3, max_insns: if big { 14 } else { 6 }, unconstrained: false, terms: 3 });
    if weight(&p.root) > 1500 { return Err(Fail::Discard) }
    let o = options(s);
    s.note(|| format!("{o:?} inputs {:?} public {:?} program {}", p.inputs, p.public, describe(&p.root)));
    let c = match compile::<C, T>(&p.root, &o) { Ok(c) => c, Err(_) => return Err(Fail::Discard) };
    let slots = &c.solver.circuit.circuits[&0].outputs;
    let hints: Vec<usize> = (0..slots.len()).filter(|k| slots[*k] > p.inputs.len()).collect();
    if hints.is_empty() { return Err(Fail::Discard) }
    let evil = corrupt(&c.solver);
    let mut rnd = SplitMix(s.u64_any() | 1);
    for t in 0..3 {
        let inputs = if t == 0 { p.inputs.clone() } else { other_inputs::<C>(s, &p.inputs) };
        let (want, f) = run::<C>(&p.root, &inputs, &p.public);
        if f.free || (f.dead && !f.violated) { continue }
        let honest = c.solver.solve_witness_from_raw_inputs(inputs.clone(), p.public.clone(), &Hints).ok().map(|w| rows(&w).remove(0).0);
        ensure!(honest.is_some() || f.overflow, "witness solving failed on {inputs:?}");
        let pool: Vec<F<C>> = honest.iter().flat_map(|h| hints.iter().map(|k| h[*k])).chain(inputs.iter().cloned()).collect();
        for _ in 0..14 {
            let forged = if honest.is_none() || s.bool() {
                // dishonest answers, with everything that depends on them recomputed
                let fo = Forger::<C> { rnd: SplitMix(s.draw(u64::MAX)).into(), every: *s.pick(&[1, 2, 5]), _c: Default::default() };
                match evil.solve_witness_from_raw_inputs(inputs.clone(), p.public.clone(), &fo) { Ok(w) => { s.label("dishonest hint answers"); rows(&w).remove(0).0 } Err(e) => return Err(Fail::Violation(format!("solving with other hint answers failed: {e:?}"))) }
            } else {
                s.label("overwritten hint values");
                let mut forged = honest.clone().unwrap();
                let n = match s.weighted(&[5, 3, 2]) { 0 => 1, 1 => 2, _ => hints.len() };
                for _ in 0..n { let k = *s.pick(&hints); forged[k] = forge::<C>(s, &forged[k], &pool) }
                forged
            };
            s.evals(1);
            if honest.as_ref() == Some(&forged) { continue }
            s.nontrivial();
            let (got, ok) = eval(&c.lc, &forged, &p.public, &mut rnd);
            s.label(if ok { "forged witness accepted, outputs unchanged" } else { "forged witness rejected" });
            if ok {
                ensure!(!f.violated, "forged hints make inputs {inputs:?} pass although they break a constraint; witness {forged:?}, honest {honest:?}");
                ensure_eq!(got, want, "outputs with forged hints {forged:?} on inputs {inputs:?} (honest witness {honest:?})");
            }
        }
    }
    Ok(())
}
pub fn c32() -> Check {
    macro_rules! per { ($c:expr, $q:expr, $t:expr, $($cfg:ident $name:expr),*) => { { let mut c = $c; $( c = c.prop(concat!("layered:", $name), $q, $t, forgery::<$cfg, NormalInputType>).prop(concat!("cross-layer:", $name), $q / 2, $t / 2, forgery::<$cfg, CrossLayerInputType>); )* c } } }
    let c = Check::new("C32", "exploration", "programs without unconstrained instructions, 3 input sets, 12 forged witnesses each (0, 1, -1, other hints, inverses, random; one, two or many positions); non-trivial: at least one hint value was replaced by a different one");
    per!(c, 3000, 50000, M31Config "M31", BN254Config "BN254", GF2Config "GF2", GoldilocksConfig "Goldilocks", BabyBearConfig "BabyBear")
}

pub fn c31() -> Check {
    macro_rules! per { ($c:expr, $q:expr, $t:expr, $($cfg:ident $name:expr),*) => { { let mut c = $c; $( c = c.prop(concat!("layered:", $name), $q, $t, semantics::<$cfg, NormalInputType>).prop(concat!("cross-layer:", $name), $q / 2, $t / 2, semantics::<$cfg, CrossLayerInputType>); )* c } } }
    let c = Check::new("C31", "exploration", "programs of up to 4 circuits and 24 instructions per circuit, 4 input sets each; non-trivial: sub-circuits or more than three instructions");
    per!(c, 4000, 60000, M31Config "M31", BN254Config "BN254", GF2Config "GF2", GoldilocksConfig "Goldilocks", BabyBearConfig "BabyBear")
}
