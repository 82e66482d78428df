//! C33: witnesses survive packing, files and loading. C34: circuits survive files, flattening and sharing.
use crate::compile::*;
use crate::ir::*;
use arith::{Field as _, SimdField};
use ethnum::U256;
use expander_compiler::circuit::config::{Goldilocksx8Config, SIMDField};
use expander_compiler::circuit::ir::{hint_normalized, source};
use expander_compiler::circuit::layered::{self, witness::{Witness, WitnessValues}, Coef, CrossLayerInputType, Input, InputType, InputUsize, NormalInputType};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::{BN254Config, BabyBearConfig, Config, GF2Config, GoldilocksConfig, M31Config};
use gkr_engine::{FieldEngine, GKREngine, MPIConfig, MPIEngine, MPISharedMemory, Transcript};
use pbt::*;
use serdes::ExpSerde;

type Pc<C> = circuit::Circuit<<C as GKREngine>::FieldConfig>;
type Row<C> = (Vec<F<C>>, Vec<F<C>>);

pub fn bytes_of<T: ExpSerde>(x: &T) -> Result<Vec<u8>, Fail> {
    let mut b = vec![];
    x.serialize_into(&mut b).map_err(|e| Fail::Violation(format!("serialization failed: {e}")))?;
    Ok(b)
}
pub fn ok<T>(r: Result<T, String>, what: &str) -> Result<T, Fail> { r.map_err(|e| Fail::Violation(format!("{what} panicked: {e}"))) }
/// Reads T and reports how many bytes it consumed.
fn read<T: ExpSerde>(b: &[u8], what: &str) -> Result<(Result<T, String>, usize), Fail> {
    let mut cur = std::io::Cursor::new(b);
    let r = ok(no_panic(|| T::deserialize_from(&mut cur).map_err(|e| e.to_string())), what)?;
    Ok((r, cur.position() as usize))
}

fn hex(b: &[u8]) -> String { clip(b.iter().map(|x| format!("{x:02x}")).collect()) }

// ------------------------------------------------------------------ C33
pub fn make<C: Config>(rows: &[Row<C>], a: usize, b: usize) -> Witness<C> {
    Witness { num_witnesses: rows.len(), num_inputs_per_witness: a, num_public_inputs_per_witness: b, values: WitnessValues::Scalar(rows.iter().flat_map(|(x, y)| x.iter().chain(y).cloned()).collect()) }
}
fn lanes<SF: SimdField>(v: &[SF]) -> Vec<Vec<SF::Scalar>> { v.iter().map(|x| x.unpack()).collect() }
/// `packed[i]` must hold column i of rows[from..], the last row repeated.
fn columns<SF: SimdField>(got: &(Vec<SF>, Vec<SF>), rows: &[(Vec<SF::Scalar>, Vec<SF::Scalar>)], from: usize, what: &str) -> R {
    ensure_eq!((got.0.len(), got.1.len()), (rows[0].0.len(), rows[0].1.len()), "{what}: sizes");
    let row = |j: usize| &rows[(from + j).min(rows.len() - 1)];
    for (i, l) in lanes(&got.0).iter().enumerate() { for j in 0..SF::PACK_SIZE { ensure!(l[j] == row(j).0[i], "{what}: input {i} lane {j} (row {}): {:?} instead of {:?}", from + j, l[j], row(j).0[i]) } }
    for (i, l) in lanes(&got.1).iter().enumerate() { for j in 0..SF::PACK_SIZE { ensure!(l[j] == row(j).1[i], "{what}: public input {i} lane {j} (row {}): {:?} instead of {:?}", from + j, l[j], row(j).1[i]) } }
    Ok(())
}
fn same_rows<C: Config>(w: &Witness<C>, rows: &[Row<C>], what: &str) -> R {
    ensure_eq!((w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness), (rows.len(), rows[0].0.len(), rows[0].1.len()), "{what}: header");
    let got: Vec<Row<C>> = ok(no_panic(|| w.iter_scalar().collect()), "iter_scalar")?;
    ensure!(got == rows, "{what}: rows {got:?} instead of {rows:?}");
    let p = SIMDField::<C>::PACK_SIZE;
    let blocks: Vec<(Vec<SIMDField<C>>, Vec<SIMDField<C>>)> = ok(no_panic(|| w.iter_simd().collect()), "iter_simd")?;
    ensure_eq!(blocks.len(), rows.len().div_ceil(p), "{what}: packed blocks");
    for (i, b) in blocks.iter().enumerate() { columns(b, rows, i * p, &format!("{what}: packed block {i}"))? }
    let s = ok(no_panic(|| w.to_simd::<SIMDField<C>>()), "to_simd")?;
    // more witnesses than lanes are dropped
    columns(&s, &rows[..rows.len().min(p)], 0, &format!("{what}: to_simd"))
}
fn wide<C: Config, SF: SimdField<Scalar = F<C>> + 'static>(w: &Witness<C>, rows: &[Row<C>], what: &str) -> R {
    let s = ok(no_panic(|| w.to_simd::<SF>()), "to_simd")?;
    columns(&s, &rows[..rows.len().min(SF::PACK_SIZE)], 0, &format!("{what}: to_simd to {} lanes", SF::PACK_SIZE))
}
fn gen_rows<C: Config>(s: &mut Src, a: usize, b: usize, n: usize) -> Vec<Row<C>> {
    (0..n).map(|_| ((0..a).map(|_| el::<C>(s)).collect(), (0..b).map(|_| el::<C>(s)).collect())).collect()
}
fn witness<C: Config, W: SimdField<Scalar = F<C>> + 'static>(s: &mut Src) -> R {
    let p = SIMDField::<C>::PACK_SIZE;
    let (mut a, b) = (s.usize_in(0, 5), s.usize_in(0, 3));
    if a + b == 0 { a = 1 }
    let n = match s.below(5) { 0 => 1, 1 => p, 2 => p + 1, 3 => s.usize_in(1, 40), _ => s.usize_in(1, 5) };
    let rows = gen_rows::<C>(s, a, b, n);
    s.note(|| format!("{n} rows of {a}+{b}: {rows:?}"));
    if n > 1 { s.nontrivial() }
    let w = make::<C>(&rows, a, b);
    same_rows(&w, &rows, "scalar witness")?;
    wide::<C, W>(&w, &rows, "scalar witness")?;
    // file format: three u64, the modulus, the values row by row
    let mut want = vec![];
    for x in [n, a, b] { want.extend((x as u64).to_le_bytes()) }
    want.extend(modulus::<C>().to_le_bytes());
    for (x, y) in &rows { for v in x.iter().chain(y) { want.extend(bytes_of(v)?) } }
    let got = bytes_of(&w)?;
    ensure!(got == want, "file bytes differ from the documented layout: {} instead of {}", hex(&got), hex(&want));
    let mut long = got.clone();
    long.extend([0xAA; 9]);
    let (r, used) = read::<Witness<C>>(&long, "reading a witness")?;
    let r = match r { Ok(r) => r, Err(e) => return Err(Fail::Violation(format!("own file refused: {e}"))) };
    ensure_eq!(used, got.len(), "bytes consumed");
    same_rows(&r, &rows, "witness from its file")?;
    wide::<C, W>(&r, &rows, "witness from its file")?;
    let again = bytes_of(&r)?;
    ensure!(again == got, "second file differs: {} instead of {}", hex(&again), hex(&got));
    // damaged files
    for _ in 0..4 {
        let cut = s.below(got.len());
        ensure!(read::<Witness<C>>(&got[..cut], "reading a truncated witness")?.0.is_err(), "a file of {} bytes cut at {cut} was accepted", got.len());
        let pr = read::<circuit::Witness<C::FieldConfig>>(&got[..cut], "the prover reading a truncated witness")?;
        ensure!(pr.0.is_err(), "the prover accepted a witness cut at {cut}");
    }
    let mut bad = got.clone();
    let at = 24 + s.below(32);
    bad[at] ^= 1 << s.below(8);
    ensure!(read::<Witness<C>>(&bad, "reading a witness")?.0.is_err(), "a witness over another field was accepted");
    ensure!(read::<circuit::Witness<C::FieldConfig>>(&bad, "the prover reading a witness")?.0.is_err(), "the prover accepted a witness over another field");
    let mut bad = got.clone();
    for k in 0..3 { if s.bool() { let v: u64 = *s.pick(&[0, 1, 2, 3, 255, 1 << 31, 1 << 32, 1 << 40, 1 << 48, 1 << 60, 1 << 61, 1 << 62, 1 << 63, u64::MAX, u64::MAX / 2, u64::MAX / 3 + 1]); bad[8 * k..8 * k + 8].copy_from_slice(&v.to_le_bytes()) } }
    let h: Vec<u64> = (0..3).map(|k| u64::from_le_bytes(bad[8 * k..8 * k + 8].try_into().unwrap())).collect();
    let need = (h[0] as u128).saturating_mul(h[1] as u128 + h[2] as u128);
    let one = bytes_of(&rows[0].0.first().or(rows[0].1.first()).cloned().unwrap())?.len() as u128;
    let fits = need.saturating_mul(one) <= (bad.len() - 56) as u128;
    s.note(|| format!("header {h:?}"));
    let (r, _) = read::<Witness<C>>(&bad, "reading a witness with a changed header")?;
    if let Ok(r) = &r {
        ensure!(fits, "a header {h:?} for {need} values was accepted with {} bytes", bad.len() - 56);
        ensure_eq!(ok(no_panic(|| r.iter_scalar().count()), "iter_scalar")? as u64, h[0], "rows of an accepted witness");
        ok(no_panic(|| r.iter_simd().count()), "iter_simd")?;
    }
    let (q, _) = read::<circuit::Witness<C::FieldConfig>>(&bad, "the prover reading a witness with a changed header")?;
    ensure_eq!(q.is_ok(), r.is_ok(), "prover and compiler disagree on accepting header {h:?}");
    s.evals(12);
    Ok(())
}
/// A prover circuit with the given number of input variables (no gates): enough to load witnesses into.
fn bare<C: Config>(vars: usize) -> Pc<C> {
    let mut c = Pc::<C>::default();
    c.layers.push(circuit::CircuitLayer { input_var_num: vars, output_var_num: 1, ..Default::default() });
    c
}
fn loading<C: Config>(s: &mut Src) -> R {
    let p = <C::FieldConfig as FieldEngine>::get_field_pack_size();
    let vars = s.usize_in(1, 3);
    // a single input is padded to one variable
    let (a, b) = (if vars == 1 && s.bool() { 1 } else { 1 << vars }, s.usize_in(0, 3));
    let world = if s.chance(1, 4) { s.usize_in(2, 3) } else { 1 };
    let pad = s.chance(1, 3);
    let n = if pad { s.usize_in(1, p + 2) } else { p * world + s.below(3) };
    if pad && world > 1 { return Err(Fail::Discard) }
    let rows = gen_rows::<C>(s, a, b, n);
    let file = bytes_of(&make::<C>(&rows, a, b))?;
    s.note(|| format!("{n} rows of {a}+{b}, world size {world}, padding {pad}"));
    if p > 1 || world > 1 || b > 0 { s.nontrivial() }
    let mut vc = bare::<C>(vars);
    let mpi = MPIConfig::verifier_new(world as i32);
    ok(no_panic(|| vc.load_witness_bytes(&file, &mpi, false, pad)), "the verifier loading a witness")?;
    let mut want: Vec<Row<C>> = rows.clone();
    while want.len() < p * world { let r = rows[0].clone(); want.push(r) }
    ensure_eq!(vc.public_input.len(), b * world, "public inputs of the verifier");
    for r in 0..world { for i in 0..b { for (j, x) in vc.public_input[r * b + i].unpack().into_iter().enumerate() {
        ensure!(x == want[r * p + j].1[i], "verifier: rank {r} public input {i} lane {j}: {x:?} instead of {:?}", want[r * p + j].1[i])
    } } }
    ensure!(vc.layers[0].input_vals.is_empty(), "the verifier keeps private inputs");
    let mpi = MPIConfig::prover_new();
    let mut pc = bare::<C>(vars);
    ok(no_panic(|| pc.load_witness_bytes(&file, &mpi, true, pad)), "the prover loading a witness")?;
    let mut priv_in = pc.layers[0].input_vals.clone();
    ensure_eq!(priv_in.len(), 1 << vars, "private inputs of the prover");
    ensure!(priv_in[a..].iter().all(|x| x.is_zero()), "the padding is not zero");
    priv_in.truncate(a);
    columns(&(priv_in.clone(), pc.public_input.clone()), &want[..p], 0, "prover")?;
    if world == 1 {
        ensure!(pc.public_input == vc.public_input, "prover and verifier read different public inputs");
        // and the direct path gives the same as the file (it pads with the last row instead)
        if n >= p {
            let d = make::<C>(&rows, a, b).to_simd::<<C::FieldConfig as FieldEngine>::SimdCircuitField>();
            ensure!(d == (priv_in, pc.public_input.clone()), "to_simd and the witness file disagree");
        }
    }
    Ok(())
}
fn batch<C: Config>(s: &mut Src) -> R {
    let p = program::<C>(s, Shape { max_subs: 2, max_insns: 8, unconstrained: true, terms: 4 });
    if weight(&p.root) > 1500 { return Err(Fail::Discard) }
    let o = options(s);
    let Ok(Ok(c)) = no_panic(|| compile::<C, NormalInputType>(&p.root, &o)) else { return Err(Fail::Discard) };
    let pk = SIMDField::<C>::PACK_SIZE;
    let n = match s.below(4) { 0 => pk, 1 => pk + 1, 2 => 1, _ => s.usize_in(1, 20) };
    let ins: Vec<Row<C>> = (0..n).map(|i| if i == 0 { (p.inputs.clone(), p.public.clone()) } else { (other_inputs::<C>(s, &p.inputs), other_inputs::<C>(s, &p.public)) }).collect();
    s.note(|| format!("{o:?} {n} inputs {ins:?} program {}", describe(&p.root)));
    let single: Vec<_> = ins.iter().map(|(a, b)| no_panic(|| c.solver.solve_witness_from_raw_inputs(a.clone(), b.clone(), &Hints))).collect();
    let all = no_panic(|| c.solver.solve_witnesses_from_raw_inputs(n, |i| ins[i].clone(), &Hints));
    let all = ok(all, "solving a batch")?;
    let mut rows: Vec<Row<C>> = vec![];
    let mut bad = false;
    for r in single { match ok(r, "solving one witness")? { Ok(w) => rows.extend(w.iter_scalar()), Err(_) => bad = true } }
    if bad { s.label("some row has no witness"); ensure!(all.is_err(), "a row alone has no witness but the batch does"); return Ok(()) }
    if n > 1 { s.nontrivial() }
    let all = match all { Ok(w) => w, Err(e) => return Err(Fail::Violation(format!("each row alone has a witness but the batch fails: {e:?}"))) };
    same_rows(&all, &rows, "batch witness")?;
    // circuits without random coefficients must agree row by row in all evaluators
    let mut lc = c.lc.clone();
    fix_random(s.u64_any(), &mut lc);
    let want: Vec<(Vec<F<C>>, bool)> = rows.iter().map(|(a, b)| eval(&lc, a, b, &mut SplitMix(1))).collect();
    let (con, out) = ok(no_panic(|| lc.run_with_output(&all)), "run_with_output")?;
    ensure_eq!((con.len(), out.len()), (n, n), "rows evaluated");
    for i in 0..n { ensure!(out[i] == want[i].0 && con[i] == want[i].1, "row {i}: {:?} {} instead of {:?} {}", out[i], con[i], want[i].0, want[i].1) }
    ensure!(ok(no_panic(|| lc.run(&all)), "run")? == con, "run and run_with_output disagree");
    for i in 0..n.min(3) {
        let one = ok(no_panic(|| lc.eval_with_public_inputs(rows[i].0.clone(), &rows[i].1)), "eval_with_public_inputs")?;
        ensure!(one == want[i], "eval_with_public_inputs on row {i}: {one:?} instead of {:?}", want[i]);
        let cv = ok(no_panic(|| lc.eval_constraint_values(rows[i].0.clone(), &rows[i].1)), "eval_constraint_values")?;
        let full = layers(&lc, &rows[i].0, &rows[i].1, &mut SplitMix(1));
        ensure!(cv == full.last().unwrap()[..lc.expected_num_output_zeroes], "eval_constraint_values on row {i}: {cv:?}");
    }
    s.evals(2 * n as u64);
    Ok(())
}
pub fn c33() -> Check {
    let c = Check::new("C33", "exploration", "1-40 rows of up to 5 inputs and 3 public inputs, edge-biased values; non-trivial: more than one row (batches), several lanes, ranks or public inputs (loading)");
    macro_rules! per { ($c:expr, $($cfg:ident $w:ty, $name:expr);*) => { { let mut c = $c; $( c = c.prop(concat!("file:", $name), 12000, 100000, witness::<$cfg, $w>).prop(concat!("load:", $name), 6000, 60000, loading::<$cfg>); )* c } } }
    let c = per!(c, M31Config mersenne31::M31x16, "M31"; BN254Config BnW, "BN254"; GF2Config gf2::GF2x64, "GF2"; GoldilocksConfig goldilocks::Goldilocksx8, "Goldilocks"; Goldilocksx8Config goldilocks::Goldilocksx8, "Goldilocksx8"; BabyBearConfig babybear::BabyBearx16, "BabyBear");
    c.prop("batch:M31", 6000, 60000, batch::<M31Config>).prop("batch:GF2", 6000, 60000, batch::<GF2Config>).prop("batch:BN254", 3000, 30000, batch::<BN254Config>).prop("batch:Goldilocks", 3000, 30000, batch::<GoldilocksConfig>).prop("batch:Goldilocksx8", 6000, 60000, batch::<Goldilocksx8Config>).prop("batch:BabyBear", 6000, 60000, batch::<BabyBearConfig>)
}
type BnW = SIMDField<BN254Config>;

// ------------------------------------------------------------------ C34
/// Replaces random coefficients by constants, one per template gate.
pub fn fix_random<C: Config, T: InputType>(seed: u64, l: &mut layered::Circuit<C, T>) {
    let mut r = SplitMix(seed);
    let mut f = |c: &mut Coef<C>| if matches!(c, Coef::Random) { *c = Coef::Constant(z::<C>(U256::from(r.next()) % modulus::<C>())) };
    for g in l.segments.iter_mut() {
        g.gate_muls.iter_mut().for_each(|x| f(&mut x.coef));
        g.gate_adds.iter_mut().for_each(|x| f(&mut x.coef));
        g.gate_consts.iter_mut().for_each(|x| f(&mut x.coef));
    }
}
fn put_back<T: ExpSerde + PartialEq + std::fmt::Debug>(s: &mut Src, x: &T, what: &str) -> Result<Vec<u8>, Fail> {
    let b = bytes_of(x)?;
    let mut long = b.clone();
    long.push(0x5A);
    let (r, used) = read::<T>(&long, what)?;
    match r {
        Ok(y) => { ensure!(y == *x, "{what}: read back {y:?} instead of {x:?}"); ensure_eq!(used, b.len(), "{what}: bytes consumed"); let c = bytes_of(&y)?; ensure_eq!(c.len(), b.len(), "{what}: length written the second time") }
        Err(e) => return Err(Fail::Violation(format!("{what}: own bytes refused: {e}"))),
    }
    for _ in 0..3 { let cut = s.below(b.len()); ensure!(read::<T>(&b[..cut], what)?.0.is_err(), "{what}: accepted {cut} of {} bytes", b.len()) }
    for _ in 0..3 { let mut m = b.clone(); damage(s, &mut m); let (r, _) = read::<T>(&m, what)?; if r.is_ok() { s.label("damaged bytes still a value") } }
    Ok(b)
}
pub fn damage(s: &mut Src, m: &mut [u8]) {
    if s.bool() && m.len() >= 8 { let at = s.below(m.len() - 7); let v: u64 = *s.pick(&[0, 1, 255, 1 << 20, 1 << 32, 1 << 45, 1 << 61, 1 << 63, u64::MAX]); m[at..at + 8].copy_from_slice(&v.to_le_bytes()) } else { let at = s.below(m.len()); m[at] ^= 1 << s.below(8) }
}
fn files<C: Config, T: InputType>(s: &mut Src) -> R {
    let p = program::<C>(s, Shape { max_subs: 3, max_insns: 10, unconstrained: true, terms: 4 });
    if weight(&p.root) > 3000 { return Err(Fail::Discard) }
    let o = options(s);
    s.note(|| format!("{o:?} program {}", describe(&p.root)));
    put_back::<source::RootCircuit<C>>(s, &p.root, "source program")?;
    let Ok(Ok(c)) = no_panic(|| compile::<C, T>(&p.root, &o)) else { return Err(Fail::Discard) };
    if c.lc.segments.len() > 1 { s.nontrivial() }
    let Ok(Ok(again)) = no_panic(|| compile::<C, T>(&p.root, &o)) else { return Err(Fail::Violation("compiling a second time fails".into())) };
    ensure!(again.lc == c.lc, "compiling twice gives two different circuits");
    let wb = bytes_of(&c.solver)?;
    let irb = put_back::<hint_normalized::RootCircuit<C>>(s, &c.solver.circuit, "witness solver")?;
    ensure!(wb.len() == irb.len(), "the witness solver file is not its circuit");
    let lb = put_back::<layered::Circuit<C, T>>(s, &c.lc, "layered circuit")?;
    // another field is refused
    let mut bad = lb.clone();
    bad[8 + s.below(32)] ^= 1 << s.below(8);
    ensure!(read::<layered::Circuit<C, T>>(&bad, "layered circuit")?.0.is_err(), "a layered circuit over another field was accepted");
    let mut bad = lb.clone();
    bad[s.below(8)] ^= 1 << s.below(8);
    ensure!(read::<layered::Circuit<C, T>>(&bad, "layered circuit")?.0.is_err(), "a layered circuit with another magic number was accepted");
    // the loaded copy computes the same
    let l2 = read::<layered::Circuit<C, T>>(&lb, "layered circuit")?.0.map_err(Fail::Violation)?;
    let w2 = read::<expander_compiler::frontend::WitnessSolver<C>>(&wb, "witness solver")?.0.map_err(|e| Fail::Violation(e))?;
    let a = no_panic(|| c.solver.solve_witness_from_raw_inputs(p.inputs.clone(), p.public.clone(), &Hints));
    let b = no_panic(|| w2.solve_witness_from_raw_inputs(p.inputs.clone(), p.public.clone(), &Hints));
    match (ok(a, "solver")?, ok(b, "loaded solver")?) {
        (Ok(a), Ok(b)) => {
            ensure!(rows(&a) == rows(&b), "the loaded solver computes another witness");
            let mut l = c.lc.clone(); let mut m = l2;
            let seed = s.draw(1 << 40);
            fix_random(seed, &mut l);
            fix_random(seed, &mut m);
            ensure!(l.run_with_output(&a) == m.run_with_output(&a), "the loaded circuit computes something else");
        }
        (Err(_), Err(_)) => {}
        _ => return Err(Fail::Violation("solver and loaded solver disagree on whether there is a witness".into())),
    }
    s.evals(20);
    Ok(())
}
/// A circuit with one field changed: validation must answer, and what it accepts must evaluate.
fn tampered<C: Config, T: InputType>(s: &mut Src) -> R {
    let p = program::<C>(s, Shape { max_subs: 2, max_insns: 8, unconstrained: true, terms: 3 });
    if weight(&p.root) > 1000 { return Err(Fail::Discard) }
    let o = options(s);
    let Ok(Ok(c)) = no_panic(|| compile::<C, T>(&p.root, &o)) else { return Err(Fail::Discard) };
    s.note(|| format!("{o:?} program {}", describe(&p.root)));
    for _ in 0..4 {
        let mut l = c.lc.clone();
        fix_random(s.u64_any(), &mut l);
        let n = |s: &mut Src, x: usize| match s.below(6) { 0 => x.wrapping_add(1), 1 => x.wrapping_sub(1), 2 => x.wrapping_mul(2), 3 => x / 2, 4 => s.below(20), _ => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 62]) };
        let np = l.num_public_inputs;
        let mut what = String::new();
        for _ in 0..s.usize_in(1, 2) {
            let k = s.below(l.segments.len());
            let g = &mut l.segments[k];
            let which = s.below(9);
            what += &format!("edit {which} of segment {k}; ");
            fn inp<I: Input>(s: &mut Src, i: &mut I, n: &dyn Fn(&mut Src, usize) -> usize, cross: bool) { if cross && s.bool() { let o = i.offset(); *i = I::new(n(s, i.layer()), o) } else { let o = n(s, i.offset()); i.set_offset(o) } }
            let x = T::CROSS_LAYER_RELAY;
            match which {
                0 if !g.gate_muls.is_empty() => { let m = s.below(g.gate_muls.len()); let j = s.below(2); inp(s, &mut g.gate_muls[m].inputs[j], &n, x) }
                1 if !g.gate_adds.is_empty() => { let m = s.below(g.gate_adds.len()); inp(s, &mut g.gate_adds[m].inputs[0], &n, x) }
                2 if !g.gate_muls.is_empty() => { let m = s.below(g.gate_muls.len()); g.gate_muls[m].output = n(s, g.gate_muls[m].output) }
                3 if !g.gate_consts.is_empty() => { let m = s.below(g.gate_consts.len()); if s.bool() { g.gate_consts[m].output = n(s, g.gate_consts[m].output) } else { let q = n(s, np); g.gate_consts[m].coef = Coef::PublicInput(q) } }
                4 if !g.child_segs.is_empty() => { let m = s.below(g.child_segs.len()); if s.bool() { g.child_segs[m].0 = n(s, g.child_segs[m].0) } else if !g.child_segs[m].1.is_empty() { let a = s.below(g.child_segs[m].1.len()); let al = &mut g.child_segs[m].1[a]; if s.bool() { al.output_offset = n(s, al.output_offset) } else { let mut v = al.input_offset.to_vec(); if !v.is_empty() { let i = s.below(v.len()); v[i] = n(s, v[i]) } if x && s.chance(1, 4) { v.push(0) } al.input_offset = InputUsize::from_vec(v) } } }
                5 => { let q = n(s, g.num_outputs); if q <= 1 << 16 || !q.is_power_of_two() { g.num_outputs = q } }
                6 if g.num_inputs.len() > 0 => { let mut v = g.num_inputs.to_vec(); let i = s.below(v.len()); let q = n(s, v[i]); if q <= 1 << 16 || !q.is_power_of_two() { v[i] = q } if x && s.chance(1, 4) { v.push(1) } if x && v.len() > 1 && s.chance(1, 4) { v.pop(); } g.num_inputs = InputUsize::from_vec(v) }
                7 => { match s.below(3) { 0 => l.num_public_inputs = n(s, np), 1 => l.num_actual_outputs = n(s, l.num_actual_outputs), _ => l.expected_num_output_zeroes = n(s, l.expected_num_output_zeroes) } }
                8 if !l.layer_ids.is_empty() => { if s.chance(1, 6) { l.layer_ids.clear() } else { let i = s.below(l.layer_ids.len()); if s.bool() { l.layer_ids[i] = n(s, l.layer_ids[i]) } else { l.layer_ids.remove(i); } } }
                _ => {}
            }
        }
        if l == c.lc { continue }
        let what2 = what.clone();
        s.note(move || what2);
        let v = ok(no_panic(|| l.validate().is_ok()), &format!("validate after {what}"))?;
        if !v { s.label("refused"); s.nontrivial(); continue }
        s.label("still valid");
        if l.num_public_inputs > 64 || l.input_size() > 1 << 16 { continue }
        let ins: Vec<F<C>> = (0..l.input_size()).map(|i| z::<C>(U256::from(i as u32 + 1) % modulus::<C>())).collect();
        let pub_: Vec<F<C>> = (0..l.num_public_inputs).map(|i| z::<C>(U256::from(i as u32 + 3) % modulus::<C>())).collect();
        let got = ok(no_panic(|| l.eval_with_public_inputs(ins.clone(), &pub_)), &format!("evaluating a circuit that passed validation ({what})"))?;
        let want = eval(&l, &ins, &pub_, &mut SplitMix(1));
        ensure!(got == want, "valid circuit evaluates to {got:?} instead of {want:?} ({what})");
    }
    s.evals(4);
    Ok(())
}

/// Everything about a prover circuit that its evaluation and proof depend on.
fn gates<FC: FieldEngine>(c: &circuit::Circuit<FC>) -> Vec<String> {
    let k = |x: &FC::CircuitField| bytes_of(x).map(|b| hex(&b)).unwrap_or_default();
    let mut o = vec![format!("zeros {}", c.expected_num_output_zeros)];
    for l in &c.layers {
        o.push(format!("layer {} -> {}", l.input_var_num, l.output_var_num));
        for g in &l.mul { o.push(format!("mul {:?} {} {:?} {:?}", g.i_ids, g.o_id, g.coef_type, k(&g.coef))) }
        for g in &l.add { o.push(format!("add {:?} {} {:?} {:?}", g.i_ids, g.o_id, g.coef_type, k(&g.coef))) }
        for g in &l.const_ { o.push(format!("const {} {:?} {:?}", g.o_id, g.coef_type, k(&g.coef))) }
        for g in &l.uni { o.push(format!("uni {} {:?} {} {:?} {:?}", g.gate_type, g.i_ids, g.o_id, g.coef_type, k(&g.coef))) }
    }
    o
}
fn diff(a: &[String], b: &[String]) -> String { a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("{x} / {y}")).unwrap_or(format!("{} / {} entries", a.len(), b.len())) }
/// (layer, kind, gate) of every random coefficient, from the gates themselves.
fn random_gates<FC: FieldEngine>(c: &circuit::Circuit<FC>) -> Vec<(usize, u8, usize)> {
    let mut v = vec![];
    for (i, l) in c.layers.iter().enumerate() {
        for (j, g) in l.mul.iter().enumerate() { if g.coef_type == circuit::CoefType::Random { v.push((i, 0, j)) } }
        for (j, g) in l.add.iter().enumerate() { if g.coef_type == circuit::CoefType::Random { v.push((i, 1, j)) } }
        for (j, g) in l.const_.iter().enumerate() { if g.coef_type == circuit::CoefType::Random { v.push((i, 2, j)) } }
        for (j, g) in l.uni.iter().enumerate() { if g.coef_type == circuit::CoefType::Random { v.push((i, 3, j)) } }
    }
    v
}
fn coef_at<FC: FieldEngine>(c: &circuit::Circuit<FC>, at: (usize, u8, usize)) -> FC::CircuitField {
    let l = &c.layers[at.0];
    match at.1 { 0 => l.mul[at.2].coef, 1 => l.add[at.2].coef, 2 => l.const_[at.2].coef, _ => l.uni[at.2].coef }
}
fn kind(k: u8) -> circuit::GateKind { [circuit::GateKind::Mul, circuit::GateKind::Add, circuit::GateKind::Const, circuit::GateKind::Uni][k as usize] }
fn count_random<C: Config>(l: &layered::Circuit<C, NormalInputType>) -> usize {
    fn seg<C: Config>(l: &layered::Circuit<C, NormalInputType>, i: usize) -> usize {
        let g = &l.segments[i];
        let r = |c: &Coef<C>| matches!(c, Coef::Random) as usize;
        g.gate_muls.iter().map(|x| r(&x.coef)).sum::<usize>() + g.gate_adds.iter().map(|x| r(&x.coef)).sum::<usize>() + g.gate_consts.iter().map(|x| r(&x.coef)).sum::<usize>()
            + g.child_segs.iter().map(|(c, a)| a.len() * seg(l, *c)).sum::<usize>()
    }
    l.layer_ids.iter().map(|i| seg(l, *i)).sum()
}
type Tr<C> = <C as GKREngine>::TranscriptConfig;
fn flat<C: Config>(s: &mut Src) -> R {
    let big = s.chance(1, 4);
    let p = program::<C>(s, Shape { max_subs: 3, max_insns: if big { 20 } else { 8 }, unconstrained: true, terms: 4 });
    if weight(&p.root) > 2000 { return Err(Fail::Discard) }
    let o = options(s);
    let Ok(Ok(c)) = no_panic(|| compile::<C, NormalInputType>(&p.root, &o)) else { return Err(Fail::Discard) };
    s.note(|| format!("{o:?} program {}", describe(&p.root)));
    let lanes_n = <<C::FieldConfig as FieldEngine>::SimdCircuitField as SimdField>::PACK_SIZE;
    let a = ok(no_panic(|| c.lc.export_to_expander_flatten()), "flattening")?;
    let b = ok(no_panic(|| c.lc.export_to_expander_flatten()), "flattening")?;
    ensure!(gates(&a) == gates(&b), "flattening twice gives different circuits: {}", diff(&gates(&a), &gates(&b)));
    // random coefficients: all of them, each once, same for both ways of sampling
    let rg = random_gates(&a);
    ensure_eq!(rg.len(), count_random(&c.lc), "random coefficients in the flattened circuit");
    if !rg.is_empty() { s.label("random coefficients") }
    let (mut t1, mut t2) = (Tr::<C>::new(), Tr::<C>::new());
    let salt = s.u64_any().to_le_bytes();
    t1.append_u8_slice(&salt); t2.append_u8_slice(&salt);
    let mut filled = a.clone();
    ok(no_panic(|| filled.fill_rnd_coefs(&mut t1)), "fill_rnd_coefs")?;
    let map = ok(no_panic(|| b.sample_rnd_coef_map(&mut t2)), "sample_rnd_coef_map")?;
    ensure_eq!(map.map.len(), rg.len(), "coefficients in the map");
    for r in &rg { ensure!(map.get(r.0, kind(r.1), r.2) == Some(coef_at(&filled, *r)), "random coefficient {r:?}: {:?} in the map, {:?} in the circuit", map.get(r.0, kind(r.1), r.2), coef_at(&filled, *r)) }
    for (i, l) in filled.layers.iter().enumerate() { for (j, g) in l.mul.iter().enumerate() { if g.coef_type != circuit::CoefType::Random { ensure!(g.coef == a.layers[i].mul[j].coef, "a constant coefficient was overwritten") } } }
    if modulus::<C>() > U256::from(1u64 << 40) && rg.len() > 1 { let mut v: Vec<_> = rg.iter().map(|r| format!("{:?}", coef_at(&filled, *r))).collect(); v.sort(); v.dedup(); ensure!(v.len() == rg.len(), "random coefficients repeat") }
    ensure!(t1.generate_field_elements::<F<C>>(2) == t2.generate_field_elements::<F<C>>(2), "the transcripts diverge after sampling");
    // evaluation, with constants in place of the random coefficients
    let mut lc = c.lc.clone();
    fix_random(s.u64_any(), &mut lc);
    let mut f = ok(no_panic(|| lc.export_to_expander_flatten()), "flattening")?;
    ensure!(f.rnd_coefs.is_empty(), "random coefficients left");
    let rows: Vec<Row<C>> = (0..lanes_n).map(|_| ((0..lc.input_size()).map(|_| el::<C>(s)).collect(), (0..lc.num_public_inputs).map(|_| el::<C>(s)).collect())).collect();
    let (x, y) = make::<C>(&rows, lc.input_size(), lc.num_public_inputs).to_simd::<<C::FieldConfig as FieldEngine>::SimdCircuitField>();
    let load = |f: &mut Pc<C>| { f.layers[0].input_vals = x.clone(); f.public_input = y.clone(); };
    load(&mut f);
    ok(no_panic(|| f.evaluate()), "evaluating the flattened circuit")?;
    let relay = f.layers.len() - lc.layer_ids.len();
    ensure!(relay <= 1, "{} layers for {}", f.layers.len(), lc.layer_ids.len());
    ensure!(f.layers[0].mul.is_empty(), "the first layer multiplies");
    if f.layers.len() > 2 { s.nontrivial() }
    for (j, r) in rows.iter().enumerate() {
        let want = layers(&lc, &r.0, &r.1, &mut SplitMix(1));
        for (i, w) in want.iter().enumerate() {
            let got = if i + relay < f.layers.len() { &f.layers[i + relay].input_vals } else { &f.layers.last().unwrap().output_vals };
            ensure!(got.len() >= w.len() && (got.len() == w.len().max(2) || got.len() == w.len()), "layer {i} has {} values instead of {}", got.len(), w.len());
            for (k, v) in w.iter().enumerate() { let g = got[k].unpack()[j]; ensure!(g == *v, "lane {j} layer {i} value {k}: {g:?} instead of {v:?}") }
            for k in w.len()..got.len() { ensure!(got[k].unpack()[j].is_zero(), "lane {j} layer {i} padding {k} is not zero") }
        }
    }
    ensure_eq!(f.expected_num_output_zeros, lc.expected_num_output_zeroes, "constraint outputs");
    for w in f.layers.windows(2) { ensure_eq!(w[0].output_var_num, w[1].input_var_num, "layer sizes") }
    for (i, l) in f.layers.iter().enumerate() { ensure_eq!(l.structure_info.skip_sumcheck_phase_two, l.mul.is_empty(), "structure of layer {i}") }
    // univariate gates (only the square protocol uses them)
    let mut g = filled.clone();
    if s.bool() {
        let li = s.below(g.layers.len());
        let (iv, ov) = (g.layers[li].input_var_num, g.layers[li].output_var_num);
        for _ in 0..s.usize_in(1, 3) {
            let gate = circuit::GateUni::<C::FieldConfig> { i_ids: [s.below(1 << iv)], o_id: s.below(1 << ov), coef_type: circuit::CoefType::Constant, coef: el::<C>(s), gate_type: 12345 + s.below(2) };
            g.layers[li].uni.push(gate);
        }
        s.label("univariate gates");
    }
    let want = |g: &Pc<C>| -> Result<Vec<Vec<<C::FieldConfig as FieldEngine>::SimdCircuitField>>, Fail> { let mut g = g.clone(); g.layers[0].input_vals = x.clone(); g.public_input = y.clone(); ok(no_panic(|| { g.evaluate(); }), "evaluating")?; let mut v: Vec<_> = g.layers.iter().map(|l| l.input_vals.clone()).collect(); v.push(g.layers.last().unwrap().output_vals.clone()); Ok(v) };
    let before = want(&g)?;
    // prover circuit file; random coefficients are not part of it
    let mut fresh = g.clone();
    for r in &rg { match r.1 { 0 => fresh.layers[r.0].mul[r.2].coef = F::<C>::zero(), 1 => fresh.layers[r.0].add[r.2].coef = F::<C>::zero(), _ => fresh.layers[r.0].const_[r.2].coef = F::<C>::zero() } }
    let file = bytes_of(&g)?;
    let mut long = file.clone(); long.push(1);
    let (r, used) = read::<Pc<C>>(&long, "reading a prover circuit")?;
    let r = r.map_err(|e| Fail::Violation(format!("own circuit file refused: {e}")))?;
    ensure_eq!(used, file.len(), "bytes consumed");
    ensure!(gates(&r) == gates(&fresh), "circuit read from its file differs: {}", diff(&gates(&r), &gates(&fresh)));
    let mut l = ok(no_panic(|| Pc::<C>::load_circuit_bytes(&file)), "load_circuit_bytes")?;
    ensure!(gates(&l) == gates(&fresh), "loaded circuit differs: {}", diff(&gates(&l), &gates(&fresh)));
    let mut t3 = Tr::<C>::new(); t3.append_u8_slice(&salt);
    ok(no_panic(|| l.fill_rnd_coefs(&mut t3)), "fill_rnd_coefs")?;
    ensure!(want(&l)? == before, "the loaded circuit evaluates differently");
    for _ in 0..3 { let cut = s.below(file.len()); ensure!(read::<Pc<C>>(&file[..cut], "reading a truncated prover circuit")?.0.is_err(), "a circuit file of {} bytes cut at {cut} was accepted", file.len()) }
    for _ in 0..3 { let mut m = file.clone(); damage(s, &mut m); read::<Pc<C>>(&m, "reading a damaged prover circuit")?; }
    let mut m = file.clone();
    m[s.below(40)] ^= 1 << s.below(8);
    ensure!(read::<Pc<C>>(&m, "reading a prover circuit of another version or field")?.0.is_err(), "a circuit file of another version or field was accepted");
    // shared memory between processes
    let size = g.bytes_size();
    let off = 8 * s.below(8);
    let mut buf: Vec<u128> = vec![0x5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A; (size + off + 64 + 64) / 16 + 8];
    let base = { let mut q = buf.as_mut_ptr() as *mut u8; gkr_engine_align(&mut q, 64); unsafe { q.add(off) } };
    let mut q = base;
    g.to_memory(&mut q);
    let wrote = q as usize - base as usize;
    ensure!(wrote <= size, "shared memory: {wrote} bytes written into {size}");
    let mut q = base;
    let sh = Pc::<C>::new_from_memory(&mut q);
    let same = gates(&sh) == gates(&g);
    let df = diff(&gates(&sh), &gates(&g));
    let mut sh2 = sh.clone();
    sh.discard_control_of_shared_mem();
    ensure_eq!(q as usize - base as usize, wrote, "shared memory: bytes read");
    ensure!(same, "circuit read from shared memory differs: {df}");
    sh2.pre_process_gkr();
    ensure!(want(&sh2)? == before, "the shared circuit evaluates differently");
    drop(buf);
    s.evals(12);
    Ok(())
}
fn gkr_engine_align(p: &mut *mut u8, a: usize) { let x = *p as usize; *p = ((x + a - 1) & !(a - 1)) as *mut u8 }

pub fn c34() -> Check {
    let c = Check::new("C34", "exploration", "programs of up to 4 circuits and 20 instructions; non-trivial: several segments (files), a refused edit (tampered), more than two layers (flattened)");
    macro_rules! per { ($c:expr, $($cfg:ident $name:expr),*) => { { let mut c = $c; $( c = c.prop(concat!("flatten:", $name), 2500, 40000, flat::<$cfg>).prop(concat!("files:", $name), 1500, 20000, files::<$cfg, NormalInputType>).prop(concat!("files-cross-layer:", $name), 800, 10000, files::<$cfg, CrossLayerInputType>).prop(concat!("tampered:", $name), 2000, 40000, tampered::<$cfg, NormalInputType>).prop(concat!("tampered-cross-layer:", $name), 2000, 40000, tampered::<$cfg, CrossLayerInputType>); )* c } } }
    per!(c, M31Config "M31", BN254Config "BN254", GF2Config "GF2", GoldilocksConfig "Goldilocks", Goldilocksx8Config "Goldilocksx8", BabyBearConfig "BabyBear")
}
