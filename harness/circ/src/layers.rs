//! C39: the circuit built for an ONNX model computes the model.
use crate::fb::*;
use crate::gadgets::{Cfg, attacks};
use crate::prog::*;
use crate::t::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::{BN254Config, CircuitField, Define, GoldilocksConfig, Variable};
use jstprove_circuits::expander_metadata::{self as em, ExpanderMetadata};
use jstprove_circuits::io::io_reader::onnx_context::OnnxContext;
use jstprove_circuits::onnx::Circuit;
use jstprove_circuits::runner::main_runner::ConfigurableCircuit;
use pbt::*;

type F<C> = CircuitField<C>;

/// Round every float the model owns or reads to a multiple of 1/`q`, and re-execute it.
pub fn snap(p: &mut Prog, q: f64) -> Option<()> {
    let r = |t: &mut T| if t.dt.is_float() { for v in &mut t.v { *v = (*v * q).round() / q + 0.0; } };
    for v in &mut p.vals {
        if v.kind != Kind::Out { r(&mut v.t); }
        // the documented input domain
        if v.kind == Kind::In && v.t.dt.is_float() { for x in &mut v.t.v { *x = x.clamp(-1.0, 1.0) + 0.0; } }
    }
    for n in &mut p.nodes { for (k, a) in &mut n.attrs { if let A::T(t) = a { if *k == "value" { r(t) } } } }
    let v = p.run(&|_| None)?;
    for (k, t) in v.into_iter().enumerate() {
        if t.v.iter().any(|x| !x.is_finite()) || t.shape != p.vals[k].t.shape { return None; }
        p.vals[k].t = t;
    }
    Some(())
}
pub fn metadata(m: &jstprove_onnx::ModelProto, f: impl Fn(&std::path::Path) -> anyhow::Result<ExpanderMetadata>) -> Result<anyhow::Result<ExpanderMetadata>, Fail> {
    let sc = Scratch::new("circ");
    let path = sc.path("m.onnx");
    write_model(m, &path);
    no_panic(|| f(&path)).map_err(|m| Fail::Violation(format!("metadata generation panicked: {}", clip(m))))
}
/// Public inputs of the circuit: input_arr, outputs, scale_base, scale_exponent; private: dummy.
pub fn evaluate<C: Cfg>(md: &ExpanderMetadata, ins: &[F<C>], outs: Option<&[F<C>]>, plan: Plan<F<C>>, seed: u64) -> Result<Result<Out<C>, String>, String> {
    OnnxContext::set_all(md.architecture.clone(), md.circuit_params.clone(), Some(md.wandb.clone()));
    let mut c = Circuit::<Variable>::default();
    c.configure().map_err(|e| e.to_string())?;
    let p = &md.circuit_params;
    let (np, npub) = c.num_vars();
    // declaration order: private dummy[2]; public input_arr, outputs, scale_base, scale_exponent
    let mut all = vec![fe::<C>(1); np];
    all.extend(ins);
    let n_out = npub.checked_sub(ins.len() + 2).ok_or(format!("the circuit takes {npub} public values for {} inputs", ins.len()))?;
    all.extend(match outs { Some(o) => o.to_vec(), None => vec![fe::<C>(0); n_out] });
    all.push(fe::<C>(p.scale_base as i128));
    all.push(fe::<C>(p.scale_exponent as i128));
    match no_panic(|| run::<C, ()>(&all, plan, seed, |b, v| {
        let (mut x, mut y) = (&v[..np], &v[np..]);
        c.load_from(&mut x, &mut y);
        c.define(b);
        Ok((b.outputs.clone(), ()))
    })) {
        Ok(r) => Ok(r.map(|x| x.0)),
        Err(m) => Ok(Err(m)),
    }
}
pub fn encode_inputs<C: Cfg>(p: &Prog, md: &ExpanderMetadata) -> Result<Vec<F<C>>, Fail> {
    let alpha = (md.circuit_params.scale_base as f64).powi(md.circuit_params.scale_exponent as i32);
    let mut v = vec![];
    for io in &md.circuit_params.inputs {
        let Some(x) = p.vals.iter().find(|x| x.name == io.name && x.kind == Kind::In) else { return Err(Fail::Violation(format!("the circuit declares an input {} the model does not have", io.name))) };
        ensure_eq!(io.shape.iter().product::<usize>(), x.t.len(), "size of input {}", io.name);
        for f in &x.t.v { v.push(fe::<C>(if x.t.dt.is_float() { (f * alpha).trunc() as i128 } else { *f as i128 })); }
    }
    Ok(v)
}
fn refusal(m: &str) -> bool { m.contains("Circuit definition failed") }

pub struct Opt { pub exact: bool, pub attacks: usize, pub tol: f64 }
pub fn case<C: Cfg>(s: &mut Src, p: &Prog, md: ExpanderMetadata, opt: &Opt) -> R {
    let ins = encode_inputs::<C>(p, &md)?;
    let seed = s.draw(u64::MAX);
    let alpha = (md.circuit_params.scale_base as f64).powi(md.circuit_params.scale_exponent as i32);
    let o = match evaluate::<C>(&md, &ins, None, Plan::<F<C>>::new(), seed)? {
        Ok(o) => o,
        Err(m) if refusal(&m) => {
            if std::env::var("PBT_LOUD").is_ok() { eprintln!("REFUSED {} :: {:?} :: {:?} :: {}", p.desc(), md.circuit_params.inputs.iter().map(|i| (&i.name, &i.shape)).collect::<Vec<_>>(), md.circuit_params.outputs.iter().map(|i| (&i.name, &i.shape)).collect::<Vec<_>>(), clip(m)); }
            s.label("circuit refused"); return Err(Fail::Discard)
        }
        Err(m) => return Err(Fail::Violation(format!("{}: building the circuit panicked: {}", p.desc(), clip(m)))),
    };
    s.evals(1);
    for n in &p.nodes { if n.op != "Constant" { s.label(n.op); } }
    s.nontrivial();
    // expected outputs, in declaration order
    let mut want = vec![]; let mut name = vec![];
    for io in &md.circuit_params.outputs {
        let x = p.vals.iter().find(|x| x.name == io.name).ok_or_else(|| Fail::Violation(format!("the circuit declares an output {} the model does not have", io.name)))?;
        for (k, f) in x.t.v.iter().enumerate() { want.push(if x.t.dt.is_float() { f * alpha } else { *f }); name.push(format!("{}[{k}]", io.name)); }
    }
    let got = o.ints();
    ensure!(got.len() == want.len(), "{}: the circuit has {} outputs, the model {}", p.desc(), got.len(), want.len());
    // first pass declares zeros as outputs: exactly the non-zero outputs may complain
    let nz = got.iter().filter(|g| **g != Some(0)).count();
    ensure!(o.fails == nz, "{}: with the model's own input, {} constraints fail besides the declared outputs ({:?})", p.desc(), o.fails as i64 - nz as i64, o.hint_errs);
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        let Some(g) = g else { return Err(Fail::Violation(format!("{}: output {} is not a small number, expected {}", p.desc(), name[k], w / alpha))) };
        let d = *g as f64 - w;
        let t = if opt.exact { 0.0 } else { opt.tol * (1.0 + w.abs() / alpha) };
        ensure!(d.abs() <= t, "{}: output {} is {g} (scale {alpha}), the model gives {w}: off by {d}", p.desc(), name[k]);
    }
    for (d, pl) in attacks::<C>(s, &o.sites, opt.attacks) {
        s.evals(1);
        let Ok(Ok(a)) = evaluate::<C>(&md, &ins, None, pl, seed) else { continue };
        // everything but the declared outputs
        let nz = a.ints().iter().filter(|g| **g != Some(0)).count();
        if a.fails == nz && a.outs != o.outs {
            let far = |k: usize| opt.exact || match a.ints()[k] { None => true, Some(g) => (g as f64 - want[k]).abs() > opt.tol * (1.0 + want[k].abs() / alpha) };
            let Some(k) = (0..a.outs.len()).find(|k| a.outs[*k] != o.outs[*k] && far(*k)) else { continue };
            return Err(Fail::Violation(format!("{}: a forged witness ({d}) satisfies every constraint with output {} = {:?} instead of {:?}", p.desc(), name[k], small::<C>(a.outs[k]), got[k])));
        }
    }
    Ok(())
}
const EXACT: &[&str] = &["Relu", "Neg", "Identity", "Clip", "Max", "Min", "Where", "Equal", "Greater", "Less", "And", "Not", "Add", "Sub", "Mul", "MatMul", "Gemm", "Conv", "ConvTranspose", "MaxPool",
    "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Transpose", "Concat", "Slice", "Split", "Tile", "Expand", "Pad", "Gather", "GatherElements", "ScatterND", "TopK", "ReduceSum", "ReduceMax"];
/// Spell out the defaults ONNX gives to the attributes of convolutions and pools (the circuit
/// wants them written down), and declare the shapes of the outputs.
fn complete(s: &mut Src, p: &mut Prog) {
    for k in 0..p.nodes.len() {
        if p.nodes[k].op == "Gelu" && s.chance(7, 8) { p.nodes[k].attrs.retain(|a| a.0 != "approximate"); p.nodes[k].attrs.push(("approximate", A::S("tanh".into()))); }
        if !matches!(p.nodes[k].op, "Conv" | "ConvTranspose" | "MaxPool" | "AveragePool") || s.chance(1, 10) { continue; }
        let has = |a: &str, n: &Node| n.attrs.iter().any(|x| x.0 == a);
        let n = &p.nodes[k];
        let kernel: Vec<i64> = match n.attrs.iter().find(|a| a.0 == "kernel_shape") { Some((_, A::Is(v))) => v.clone(), _ => p.t(n.ins[1].unwrap()).shape[2..].iter().map(|d| *d as i64).collect() };
        let d = kernel.len();
        let auto = has("auto_pad", n);
        let mut add = vec![("kernel_shape", A::Is(kernel)), ("strides", A::Is(vec![1; d]))];
        if n.op != "AveragePool" { add.push(("dilations", A::Is(vec![1; d]))); }
        if !auto { add.push(("pads", A::Is(vec![0; 2 * d]))); }
        if n.op.starts_with("Conv") { add.push(("group", A::I(1))); }
        for (a, v) in add { if !has(a, &p.nodes[k]) { p.nodes[k].attrs.push((a, v)); } }
    }
}
fn declare(s: &mut Src, p: &Prog, m: &mut jstprove_onnx::ModelProto) {
    use jstprove_onnx::{tensor_shape_proto::{dimension::Value, Dimension}, type_proto, TensorShapeProto};
    let Some(g) = m.graph.as_mut() else { return };
    for o in &mut g.output {
        if s.chance(1, 12) { continue; }
        let Some(v) = p.vals.iter().find(|v| Some(&v.name) == o.name.as_ref()) else { continue };
        if let Some(type_proto::Value::TensorType(t)) = o.r#type.as_mut().and_then(|t| t.value.as_mut()) {
            t.shape = Some(TensorShapeProto { dim: v.t.shape.iter().map(|d| Dimension { denotation: None, value: Some(Value::DimValue(*d as i64)) }).collect() });
        }
    }
}
fn elems(p: &Prog) -> usize { p.vals.iter().map(|v| v.t.len()).sum() }
fn exact<C: Cfg>(s: &mut Src, n: usize, ops: &'static [&'static str], tol: Option<(f64, usize)>) -> R {
    let mut p = Prog::new();
    p.cmax = 2.0;
    if n == 0 { // one function over a wide range
        let op = s.pickc(ops);
        let r = s.usize_in(0, 3);
        let sh: Vec<usize> = (0..r).map(|_| s.usize_in(1, 4)).collect();
        let x = p.input(s, sh, Dt::F);
        let c = s.pickc(&[4.0, 2.0, 1.5, 3.0]);
        let c = p.konst(s, T::scalar(c, Dt::F));
        let Some(y) = p.apply(s, "Mul", vec![Some(x), Some(c)], vec![], 1) else { return Err(Fail::Discard) };
        let y = if op == "Sqrt" { p.apply(s, "Relu", vec![Some(y[0])], vec![], 1).unwrap()[0] } else { y[0] };
        p.apply(s, op, vec![Some(y)], vec![], 1);
    }
    for _ in 0..if n == 0 { 0 } else { s.usize_in(1, n) } { let op = s.pickc(ops); gen_op(s, &mut p, op); }
    if p.nodes.is_empty() || elems(&p) > 600 || !p.vals.iter().any(|v| v.kind == Kind::In) { return Err(Fail::Discard) }
    if p.nodes.iter().any(|n| NONNEG.contains(&n.op)) { for v in &mut p.vals { if v.kind == Kind::In { for x in &mut v.t.v { *x = x.abs(); } } } }
    if snap(&mut p, if tol.is_some() { 256.0 } else { 4.0 }).is_none() { return Err(Fail::Discard) }
    complete(s, &mut p);
    let mut m = p.encode(s, &Enc::default());
    declare(s, &p, &mut m);
    s.note(|| p.desc());
    // every value must be a whole number of quantization steps
    if tol.is_none() && p.vals.iter().any(|v| v.t.dt.is_float() && v.t.v.iter().any(|x| (x * 1024.0).fract() != 0.0)) { return Err(Fail::Discard) }
    let mut digits = s.pickc(&[3u32, 4]); if let Ok(d) = std::env::var("C39_DIG") { digits = d.parse().unwrap(); }
    let md = match metadata(&m, |f| em::generate_from_onnx_for_field(f, C::NB as u32, Some(digits)))? {
        Ok(m) => m,
        Err(e) => { if std::env::var("PBT_LOUD").is_ok() { eprintln!("MD REFUSED {e:#}"); } s.label("metadata refused"); return Err(Fail::Discard) }
    };
    let mut md = md;
    if s.bool() { md.circuit_params.logup_chunk_bits = Some(s.usize_in(3, 9)); }
    case::<C>(s, &p, md, &match tol { None => Opt { exact: true, attacks: 3, tol: 0.0 }, Some((tol, attacks)) => Opt { exact: false, attacks, tol: if tol > 0.0 { tol } else { p.nodes.iter().map(|n| steps(n.op)).fold(0.0, f64::max) } } })
}
fn only() -> &'static [&'static str] {
    match std::env::var("C39_OPS") { Ok(v) => Box::leak(v.split(',').map(|x| &*Box::leak(x.to_string().into_boxed_str())).collect::<Vec<_>>().into_boxed_slice()), _ => EXACT }
}
/// Sums over declared inputs of rank two or more are sized too small (known finding of C15).
fn chain() -> &'static [&'static str] {
    static L: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    L.get_or_init(|| only().iter().copied().filter(|o| *o != "ReduceSum" && *o != "MatMul").collect())
}
/// How many quantization steps the circuit's output may be away from the model's.
fn steps(op: &str) -> f64 {
    match op {
        "Erf" => 17.0,
        "Softmax" | "Gelu" => 13.0,
        "Tanh" => 7.0,
        "LeakyRelu" | "Exp" | "Log" | "Sigmoid" | "Pow" | "Sin" | "Cos" => 4.5,
        _ => 2.0,
    }
}
const INEXACT: &[&str] = &["LeakyRelu", "Div", "Sqrt", "Exp", "Log", "Sigmoid", "Tanh", "Erf", "Gelu", "HardSwish", "Softmax", "Pow", "Sin", "Cos", "AveragePool", "GlobalAveragePool", "ReduceMean"];
/// operators whose circuit only takes non-negative activations
const NONNEG: &[&str] = &["Pow", "AveragePool", "GlobalAveragePool", "ReduceMean"];
const WIDE: &[&str] = &["Sigmoid", "Tanh", "Erf", "Gelu", "Exp", "HardSwish", "LeakyRelu", "Softmax", "Sqrt"];
fn pick(l: &'static [&'static str]) -> &'static [&'static str] { if std::env::var("C39_OPS").is_ok() { only() } else { l } }
/// an inexact operator: tolerance by operator (0 stands for that), three attacks
fn off() -> Option<(f64, usize)> { Some((std::env::var("C39_TOL").map_or(0.0, |v| v.parse().unwrap()), 3)) }
pub fn c39() -> Check {
    Check::new("C39", "exploration", "a model with at least one node whose circuit is built and evaluated")
        .prop("exact operators, one node (BN254)", 3000, 60000, |s| exact::<BN254Config>(s, 1, only(), None))
        .prop("exact operators, one node (Goldilocks)", 3000, 60000, |s| exact::<GoldilocksConfig>(s, 1, only(), None))
        .prop("other operators, one node (BN254)", 3000, 60000, |s| exact::<BN254Config>(s, 1, pick(INEXACT), off()))
        .prop("other operators, one node (Goldilocks)", 1500, 30000, |s| exact::<GoldilocksConfig>(s, 1, pick(INEXACT), off()))
        .prop("functions over a wide range (Goldilocks)", 1000, 20000, |s| exact::<GoldilocksConfig>(s, 0, pick(WIDE), off()))
        .prop("functions over a wide range (BN254)", 2000, 40000, |s| exact::<BN254Config>(s, 0, pick(WIDE), off()))
        .prop("exact operators, chains (BN254)", 3000, 60000, |s| exact::<BN254Config>(s, 5, chain(), None))
        .prop("exact operators, chains (Goldilocks)", 1500, 30000, |s| exact::<GoldilocksConfig>(s, 4, chain(), None))
}
