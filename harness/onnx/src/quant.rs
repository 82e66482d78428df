//! C14-C17, C21, C22: quantization of weights, bit widths, scales and rewrites.
use crate::prog::*;
use crate::t::*;
use crate::{load_model, Loaded};
use jstprove_onnx as ox;
use ox::graph::{LayerGraph, LayerNode, OpType};
use ox::parser::TensorData;
use ox::quantizer::*;
use pbt::*;
use std::collections::HashMap;

pub const RESCALED: &[&str] = &["Gemm", "Conv", "BatchNormalization", "Mul", "MatMul", "ConvTranspose"];
pub const RANGED: &[&str] = &["Relu", "LeakyRelu", "MaxPool", "Max", "Min", "Clip", "Exp", "Softmax", "Sigmoid", "Gelu", "Resize", "GridSample", "TopK", "AveragePool", "Sqrt", "Tanh", "Erf", "Pow", "HardSwish", "GlobalAveragePool", "Sin", "Cos"];

fn all_ops() -> Vec<&'static str> { [UNARY, BINARY, LINEAR, WINDOW, MOVE].concat().into_iter().filter(|o| *o != "Log").collect() }

fn scale(s: &mut Src, max: u32) -> ScaleConfig {
    if s.chance(1, 4) { return ScaleConfig::default(); }
    let base = s.pickc(&[2u64, 2, 2, 3, 4, 10]);
    let lim = (f64::from(max) / (base as f64).log2()).floor() as u32;
    let e = s.usize_in(1, lim.max(1) as usize) as u32;
    ScaleConfig::new(base, e)
}

fn quantize(g: LayerGraph, c: &ScaleConfig) -> Result<Result<QuantizedModel, String>, Fail> {
    Ok(no_panic(|| quantize_model(g, c)).map_err(|m| format!("quantization panicked: {m}"))?.map_err(|e| format!("{e:#}")))
}

/// exp and pow may exceed any range; shapes that depend on a declared leading dimension may not be traceable
fn may_refuse(p: &Prog) -> bool {
    let big = p.nodes.iter().any(|n| ["Exp", "Pow"].contains(&n.op)) && p.nodes.len() > 1;
    let batched = p.vals.iter().any(|v| v.kind == Kind::In && v.t.rank() >= 2) && p.nodes.iter().any(|n| MOVE.contains(&n.op));
    big || batched
}

fn linear_prog(s: &mut Src, n: usize) -> Prog {
    let mut p = Prog::new();
    p.cmax = s.pickc(&[3.0, 1.0, 40.0, 0.01]);
    let all = all_ops();
    for _ in 0..s.usize_in(1, n) { let op = if s.chance(2, 3) { s.pickc(&["Gemm", "Conv", "BatchNormalization", "MatMul", "ConvTranspose", "LayerNormalization", "GridSample", "Mul", "InstanceNormalization", "GroupNormalization"]) } else { s.pickc(&all) }; gen_op(s, &mut p, op); }
    p
}

/// exponent (power of alpha) at which a constant operand is stored
fn plan(op: &str, pos: usize) -> Option<u32> {
    match (op, pos) {
        ("Conv" | "Gemm" | "ConvTranspose" | "LayerNormalization", 1) => Some(1),
        ("Conv" | "Gemm" | "ConvTranspose" | "LayerNormalization", 2) => Some(2),
        ("MatMul" | "GridSample", 1) => Some(1),
        ("Max" | "Min", _) | ("Clip", 0..=2) | ("Pad", 2) => Some(1),
        ("Add" | "Sub" | "Mul" | "Equal" | "Greater" | "Less", 0 | 1) => Some(1),
        _ => None,
    }
}

fn same_td(a: &TensorData, b: &TensorData) -> bool {
    a.name == b.name && a.dims == b.dims && a.data_type == b.data_type && a.int_data == b.int_data && a.float_data.len() == b.float_data.len() && a.float_data.iter().zip(&b.float_data).all(|(x, y)| x.to_bits() == y.to_bits())
}

fn rounded(q: &[i64], w: &[f64], f: f64, what: &str, slack: f64) -> R {
    ensure_eq!(q.len(), w.len(), "{what}: number of values");
    for (k, (q, w)) in q.iter().zip(w).enumerate() {
        let x = w * f;
        ensure!((*q as f64 - x).abs() <= 0.5 + slack * x.abs(), "{what}[{k}]: {w} is stored as {q}, scaled it is {x}");
    }
    Ok(())
}

fn c14_case(s: &mut Src) -> R {
    let p = linear_prog(s, 4);
    if p.nodes.is_empty() { return Err(Fail::Discard); }
    let cfg = scale(s, 22);
    let e = Enc { shuffle: s.bool(), symbolic: s.bool() };
    let m = p.encode(s, &e);
    s.note(|| format!("alpha {} {}", cfg.alpha, p.desc()));
    let l = load_model(&m)?;
    let q = match quantize(l.graph.clone(), &cfg)? { Ok(q) => q, Err(e) => { ensure!(may_refuse(&p), "a supported model is refused: {e}"); return Err(Fail::Discard); } };
    ensure_eq!(q.scale_config.alpha, cfg.alpha, "scale of the quantized model");
    ensure_eq!((q.scale_config.base, q.scale_config.exponent), (cfg.base, cfg.exponent), "scale parameters");
    ensure_eq!(q.graph.layers.len(), l.graph.layers.len(), "number of layers");
    ensure_eq!(q.graph.topo_order, l.graph.topo_order, "order");
    ensure_eq!(q.graph.input_names, l.graph.input_names, "inputs");
    ensure_eq!(q.graph.output_names, l.graph.output_names, "outputs");
    ensure_eq!(q.graph.input_shapes, l.graph.input_shapes, "input shapes");
    for (a, b) in l.graph.layers.iter().zip(&q.graph.layers) {
        ensure_eq!((b.id, &b.name, &b.outputs, b.needs_rescale), (a.id, &a.name, &a.outputs, a.needs_rescale), "layer identity");
        if a.op_type == OpType::BatchNormalization { continue; }
        if a.op_type == OpType::Pow && b.op_type == OpType::Sqrt { continue; }
        let op = format!("{:?}", a.op_type);
        ensure_eq!(format!("{:?}", b.op_type), op, "operator");
        ensure_eq!(b.inputs, a.inputs, "inputs of {op}");
        ensure_eq!(b.attributes.len(), a.attributes.len(), "attributes of {op}");
        ensure_eq!(b.weights.len(), a.weights.len(), "constants of {op}");
        for (nm, w) in &a.weights {
            let Some(v) = b.weights.get(nm) else { return Err(format!("{op}: constant '{nm}' is gone").into()); };
            let pos: Vec<usize> = (0..a.inputs.len()).filter(|k| &a.inputs[*k] == nm).collect();
            let exps: Vec<u32> = pos.iter().filter_map(|k| plan(&op, *k)).collect();
            if exps.is_empty() || w.float_data.is_empty() {
                ensure!(same_td(w, v), "{op}: constant operand '{nm}' (input {pos:?}) changed from {w:?} to {v:?}");
            } else {
                s.nontrivial(); s.label("scaled operand");
                ensure_eq!(v.dims, w.dims, "{op}: dims of '{nm}'");
                ensure!(v.float_data.is_empty(), "{op}: operand '{nm}' still has floating-point values");
                let f = (cfg.alpha as f64).powi(exps[0] as i32);
                rounded(&v.int_data, &w.float_data, f, &format!("{op} operand {pos:?}"), 0.0)?;
            }
        }
    }
    Ok(())
}

pub fn c14() -> Check {
    Check::new("C14", "exploration", "models of 1-4 nodes rich in weighted layers (Conv, Gemm, MatMul, ConvTranspose, LayerNormalization, GridSample and others around them), weights from 0.01 to 40, scales of several bases up to 2^22; non-trivial: at least one weight tensor is scaled")
        .assume("scaled values stay below 2^53, and one tensor is not used as weight and bias of the same layer")
        .prop("weights", 100_000, 1_500_000, c14_case)
}

// ------------------------------------------------------------ C15

fn layer<'a>(g: &'a LayerGraph, n: &str) -> Result<&'a LayerNode, Fail> { g.layers.iter().find(|l| l.name == n).ok_or_else(|| Fail::Violation(format!("layer {n} is gone"))) }

/// inputs in [-1, 1] that make |v[target][elem]| large: corners improved one coordinate at a time
fn attack(s: &mut Src, p: &Prog, seen: &mut Vec<f64>, tries: usize) {
    let ins: Vec<usize> = (0..p.vals.len()).filter(|k| p.vals[*k].kind == Kind::In).collect();
    let mut note = |v: &[T]| for (m, t) in seen.iter_mut().zip(v) { *m = m.max(t.absmax()); };
    if let Some(v) = p.run(&|_| None) { note(&v); }
    for _ in 0..tries {
        let mut cur: HashMap<usize, T> = HashMap::new();
        let style = s.draw(3);
        let mut rng = SplitMix(s.draw(1 << 30));
        for k in &ins { let t = &p.vals[*k].t; let v = t.v.iter().map(|_| { let r = rng.next(); if t.dt == Dt::B { return (r & 1) as f64; } match style { 0 => 1.0, 1 => -1.0, _ => if r & 1 == 0 { 1.0 } else { -1.0 } } }).collect(); cur.insert(*k, T::new(t.shape.clone(), v, t.dt)); }
        let Some(v) = p.run(&|k| cur.get(&k).cloned()) else { continue };
        note(&v);
        // one target node, one element of it
        let n = &p.nodes[s.below(p.nodes.len())];
        let o = n.outs[0];
        if v[o].v.is_empty() { continue; }
        let el = (0..v[o].len()).max_by(|a, b| v[o].v[*a].abs().total_cmp(&v[o].v[*b].abs())).unwrap();
        let mut best = v[o].v[el].abs();
        let mut budget = 60;
        'up: for k in &ins {
            for i in 0..cur[k].len() {
                if budget == 0 { break 'up; }
                budget -= 1;
                let old = cur[k].v[i];
                cur.get_mut(k).unwrap().v[i] = if p.vals[*k].t.dt == Dt::B { 1.0 - old } else { -old };
                match p.run(&|k| cur.get(&k).cloned()) {
                    Some(v) => { note(&v); let y = v[o].v.get(el).map_or(0.0, |y| y.abs()); if y >= best { best = y; } else { cur.get_mut(k).unwrap().v[i] = old; } }
                    None => cur.get_mut(k).unwrap().v[i] = old,
                }
            }
        }
    }
}

fn bits_hold(p: &Prog, q: &QuantizedModel, alpha: f64, seen: &[f64]) -> R {
    for (k, n) in p.nodes.iter().enumerate() {
        let nm = p.node_name(k);
        let l = layer(&q.graph, &nm)?;
        let must = RESCALED.contains(&n.op) || RANGED.contains(&n.op);
        ensure!(!must || l.n_bits.is_some(), "{} has no bit width although it is rescaled or range-checked", n.op);
        ensure_eq!(q.n_bits_config.get(&nm).copied(), l.n_bits, "bit width of {} in the configuration", n.op);
        if let Some(b) = l.n_bits {
            let y = seen[n.outs[0]] * alpha;
            ensure!(y <= 2f64.powi(b as i32 - 1) * (1.0 + 1e-9), "{} (node {k}) reaches {} on inputs in [-1, 1], quantized {y}, but its bit width is {b}", n.op, seen[n.outs[0]]);
        }
    }
    for k in q.n_bits_config.keys() { ensure!(q.graph.layers.iter().any(|l| &l.name == k), "bit width for unknown layer {k}"); }
    Ok(())
}

fn c15_case(s: &mut Src, mut p: Prog, ops: &[&'static str], max: usize) -> R {
    p.cmax = s.pickc(&[3.0, 1.0, 12.0, 100.0]);
    for _ in 0..s.usize_in(1, max) {
        let op = s.pickc(ops);
        if op == "Log" { // the quantized logarithm sees values of at least one step
            let x = p.some(s, 0, 4);
            let lo = s.pickc(&[1.0 / 256.0, 1.0 / 64.0, 0.5]);
            let c = p.konst(s, T::scalar(lo, Dt::F));
            if let Some(y) = p.apply(s, "Clip", vec![Some(x), Some(c)], vec![], 1) { p.apply(s, "Log", vec![Some(y[0])], vec![], 1); }
            continue;
        }
        gen_op(s, &mut p, op);
    }
    if p.nodes.is_empty() || p.ext { return Err(Fail::Discard); }
    // a dynamic product or sum over declared matrices: see known finding
    let e = Enc { shuffle: s.bool(), symbolic: false };
    let m = p.encode(s, &e);
    let cfg = { let c = scale(s, 24); if c.alpha < 256 { ScaleConfig::default() } else { c } };
    s.note(|| format!("alpha {} {}", cfg.alpha, p.desc()));
    for n in &p.nodes { s.label(n.op); }
    let l = load_model(&m)?;
    let q = match quantize(l.graph.clone(), &cfg)? { Ok(q) => q, Err(e) => { ensure!(may_refuse(&p), "a supported model is refused: {e}"); return Err(Fail::Discard); } };
    let mut seen = vec![0.0; p.vals.len()];
    attack(s, &p, &mut seen, 3);
    if q.n_bits_config.len() >= 2 { s.nontrivial(); }
    bits_hold(&p, &q, cfg.alpha as f64, &seen)
}

fn no_reduce() -> Vec<&'static str> { let mut v = all_ops(); v.push("Log"); v.into_iter().filter(|o| *o != "ReduceSum" && *o != "MatMul").collect() }

/// sums and dynamic products over declared inputs of rank two or more, whose leading dimension the graph drops
fn c15_batched(s: &mut Src) -> R {
    // the listed finding: one specific model
    let mut p = Prog::new();
    let x = { let t = T::new(vec![1, 8, 3], vec![1.0; 24], Dt::F); p.vals.push(Val { name: "x".into(), t, kind: Kind::In, konst: false }); 0 };
    let c = p.konst(s, T::ints(&[1]));
    let y = p.apply(s, "ReduceSum", vec![Some(x), Some(c)], vec![("keepdims", A::I(0))], 1).unwrap()[0];
    let r = p.apply(s, "Relu", vec![Some(y)], vec![], 1).unwrap()[0];
    let m = p.encode(s, &Enc::default());
    let l = load_model(&m)?;
    let cfg = ScaleConfig::default();
    let q = quantize(l.graph.clone(), &cfg)?.map_err(Fail::Violation)?;
    let b = q.graph.layers.iter().find(|l| l.op_type == OpType::Relu).and_then(|l| l.n_bits).unwrap_or(0);
    s.note(|| format!("Relu after ReduceSum over axis 1 of an input declared [1,8,3]: bit width {b}"));
    s.nontrivial();
    let y = p.vals[r].t.absmax() * cfg.alpha as f64;
    if y > 2f64.powi(b as i32 - 1) { s.known("reduce-sum-over-batched-input", format!("Relu(ReduceSum(x[1,8,3], axes=[1])) reaches {y} quantized but has bit width {b}: the graph keeps input shapes without their leading dimension, so the sum is sized for 3 terms instead of 8")); }
    // a valid model that is refused for the same reason
    let mut p = Prog::new();
    p.vals.push(Val { name: "x".into(), t: T::new(vec![2, 3], vec![1.0; 6], Dt::F), kind: Kind::In, konst: false });
    let c = p.konst(s, T::ints(&[6]));
    p.apply(s, "Reshape", vec![Some(0), Some(c)], vec![], 1).unwrap();
    let m = p.encode(s, &Enc::default());
    let l = load_model(&m)?;
    if let Err(e) = quantize(l.graph, &cfg)? { s.known("reshape-of-batched-input-refused", format!("quantize_model refuses Reshape(x[2,3], [6]): {e}")); }
    Ok(())
}

pub fn c15() -> Check {
    Check::new("C15", "exploration", "models of 1-5 nodes over every operator the quantizer bounds, constants up to 100, scales up to 2^24, executed on corner inputs of [-1,1] improved coordinate by coordinate towards the largest output; non-trivial: at least two layers carry a bit width")
        .assume("model inputs lie in [-1, 1], as the converter's calibration assumes; logarithms see arguments of at least 1/256; denominators, exponents and biases are constants")
        .assume("sums and products of two runtime tensors are searched over inputs declared as vectors (the listed known finding covers declared matrices)")
        .prop("layers", 40_000, 800_000, |s| c15_case(s, Prog::new(), &no_reduce(), 3))
        .prop("chains", 20_000, 400_000, |s| c15_case(s, Prog::new(), &["Gemm", "Conv", "BatchNormalization", "Mul", "ConvTranspose", "Add", "Sub", "Relu", "Max", "Min", "Clip", "Concat", "Pad", "Where", "Div", "Pow", "LeakyRelu", "Reshape", "Transpose", "AveragePool", "MaxPool", "Neg"], 5))
        .prop("reductions", 30_000, 600_000, |s| { let mut p = Prog::new(); p.flat = true; c15_case(s, p, &["ReduceSum", "ReduceSum", "MatMul", "MatMul", "Relu", "Mul", "Reshape", "Transpose", "Concat", "ReduceMean", "ReduceMax", "Expand", "Tile", "Unsqueeze", "Squeeze", "Add", "Slice", "Split", "Gather", "Flatten", "Pad", "TopK", "Where", "Gemm"], 5) })
        .prop("batched_inputs", 1, 1, c15_batched)
        .prop("shared_names", 4_000, 60_000, |s| {
            // layers with the same name: the shared entry has to suit both
            let mut p = Prog::new();
            let x = p.input(s, vec![3], Dt::F);
            let (a, b) = (s.range(1, 200) as f64, s.range(1, 200) as f64);
            let c1 = p.init(s, T::scalar(a, Dt::F)); let c2 = p.init(s, T::scalar(b, Dt::F));
            p.apply(s, "Mul", vec![Some(x), Some(c1)], vec![], 1); p.apply(s, "Mul", vec![Some(x), Some(c2)], vec![], 1);
            let mut m = p.encode(s, &Enc::default());
            let nm = match s.draw(2) { 0 => None, 1 => Some(String::new()), _ => Some("same".to_string()) };
            for n in &mut m.graph.as_mut().unwrap().node { n.name = nm.clone(); }
            s.note(|| format!("factors {a}, {b}, node name {nm:?}")); if a != b { s.nontrivial(); }
            let l = load_model(&m)?;
            let q = quantize(l.graph, &ScaleConfig::default())?.map_err(Fail::Violation)?;
            for (g, v) in q.graph.layers.iter().zip([a, b]) { let n = g.n_bits.unwrap_or(0); ensure!(v * 262144.0 <= 2f64.powi(n as i32 - 1), "Mul by {v} has bit width {n}"); if nm.as_deref().unwrap_or("").is_empty() { ensure!(v * 262144.0 * 4.0 > 2f64.powi(n as i32 - 1), "Mul by {v} has bit width {n}: unnamed layers are mixed up"); } }
            Ok(())
        })
}

// ------------------------------------------------------------ C16

fn c16_scales(s: &mut Src) -> R {
    let d = s.usize_in(0, 12) as u32;
    let n = s.pickc(&[64u32, 31, 63, 48, 20, 10, 5]).min(64);
    let b: f64 = match s.draw(4) { 0 => 1.0, 1 => s.range(1, 1 << 20) as f64, 2 => (1u64 << s.draw(40)) as f64, 3 => (s.range(1, 1 << 20) as f64) / 1024.0, _ => s.range(0, 100) as f64 / 100.0 };
    s.note(|| format!("{d} digits, {n} bits, bound {b}"));
    s.nontrivial();
    let lb = b.max(1.0);
    // exponents whose alpha^2 * bound fits into n - 1 bits
    let fits = |e: u32| 2.0 * f64::from(e) + lb.log2() <= f64::from(n) - 1.0 + 1e-12;
    let me = ScaleConfig::max_safe_exponent(n, b);
    ensure!(me == 0 || fits(me), "max_safe_exponent({n}, {b}) = {me}: alpha^2 * bound exceeds the field");
    // the bound is rounded up to a power of two, so at most one exponent is given away
    ensure!(!fits(me + 1) || 2.0 * f64::from(me + 1) + lb.log2().ceil() > f64::from(n) - 1.0, "max_safe_exponent({n}, {b}) = {me} but {} fits", me + 1);
    // the bit widths offered per field leave room for a product of two values of that width
    use jstprove_onnx::quantizer::{N_BITS_BN254, N_BITS_GOLDILOCKS, N_BITS_GOLDILOCKS_EXT2};
    for (w, field) in [(N_BITS_BN254, 253), (N_BITS_GOLDILOCKS, 63), (N_BITS_GOLDILOCKS_EXT2, 127)] { ensure!(2 * w <= field, "products of {w}-bit values overflow a field of {field} bits") }
    let ed = ScaleConfig::exponent_for_digits(d);
    ensure!(2f64.powi(ed as i32) >= 10f64.powi(d as i32), "2^{ed} has fewer than {d} decimal digits");
    ensure!(ed == 0 || 2f64.powi(ed as i32 - 1) < 10f64.powi(d as i32), "exponent {ed} for {d} digits is larger than needed");
    let md = ScaleConfig::max_safe_digits(n, b);
    ensure!(10f64.powi(md as i32) <= 2f64.powi(me as i32), "max_safe_digits({n}, {b}) = {md} but only 2^{me} fits");
    ensure!(10f64.powi(md as i32 + 1) > 2f64.powi(me as i32), "max_safe_digits({n}, {b}) = {md} but {} digits fit", md + 1);
    let a = ScaleConfig::adaptive(n, b);
    ensure_eq!((a.base, a.exponent, a.alpha), (2, me, 1i64 << me), "adaptive scale");
    match ScaleConfig::for_precision(d, n, b) {
        Ok(c) => {
            s.label("accepted");
            ensure_eq!((c.base, c.exponent, c.alpha), (2, ed, 1i64 << ed), "scale for {d} digits");
            ensure!(ed <= me && d <= md, "{d} digits accepted where at most {md} are safe");
        }
        Err(_) => { s.label("refused"); ensure!(ed > me && d > md, "{d} digits refused although {md} are safe"); }
    }
    let (base, e) = (s.range(2, 10) as u64, s.usize_in(0, 18) as u32);
    let c = ScaleConfig::new(base, e);
    let mut want = 1u64; for _ in 0..e { want *= base; }
    ensure_eq!((c.base, c.exponent, c.alpha), (base, e, want as i64), "scale {base}^{e}");
    Ok(())
}

/// one weighted layer applied to the input: the bound and the accepted precision are exact up to a factor of two
fn c16_model(s: &mut Src) -> R {
    let mut p = Prog::new();
    p.cmax = s.pickc(&[3.0, 1.0, 50.0, 1000.0]);
    let op = s.pickc(&["Gemm", "Conv", "BatchNormalization", "MatMul", "Mul", "ConvTranspose"]);
    gen_op(s, &mut p, op);
    if p.ext || !p.nodes.iter().any(|n| n.op == op) { return Err(Fail::Discard); }
    let node = p.nodes.iter().find(|n| n.op == op).unwrap().clone();
    if op == "MatMul" && node.ins.iter().flatten().all(|i| !p.vals[*i].konst) { return Err(Fail::Discard); }
    let m = p.encode(s, &Enc::default());
    s.note(|| p.desc());
    let l = load_model(&m)?;
    let mut g = l.graph.clone();
    let b = no_panic(|| compute_max_bound(&mut g)).map_err(|m| format!("bound computation panicked: {m}"))?.map_err(|e| format!("bound refused: {e:#}"))?;
    let mut seen = vec![0.0; p.vals.len()];
    attack(s, &p, &mut seen, 2);
    let y = seen[node.outs[0]];
    s.nontrivial(); s.label(op);
    ensure!(b >= 1.0 && y <= b * (1.0 + 1e-6), "{op} reaches {y} on inputs in [-1,1] but the model's bound is {b}");
    let d = s.usize_in(0, 9) as u32;
    let n = s.pickc(&[64u32, 31, 63, 40]);
    match no_panic(|| quantize_model_for_precision(l.graph.clone(), d, n)).map_err(|m| format!("panicked: {m}"))? {
        Ok(q) => {
            s.label("accepted");
            let a = q.scale_config.alpha as f64;
            ensure!(a >= 10f64.powi(d as i32), "scale {a} is too coarse for {d} digits");
            ensure!(a * a * y <= 2f64.powi(n as i32 - 1) * (1.0 + 1e-6), "{d} digits accepted, but {op} reaches {y}, which at scale {a} squared needs more than {n} bits");
            bits_hold(&p, &q, a, &seen)?;
        }
        Err(e) => {
            s.label("refused");
            // an exact upper bound of the layer
            let a = 2f64.powi(ScaleConfig::exponent_for_digits(d) as i32);
            ensure!(a * a * upper(&p, &node) * 2.0 * 1.000001 >= 2f64.powi(n as i32 - 1), "{d} digits refused for {n} bits although {op} stays below {}: {e:#}", upper(&p, &node));
        }
    }
    Ok(())
}

/// the sum of all absolute weights plus the largest bias: no output can be larger
fn upper(p: &Prog, n: &Node) -> f64 {
    let v = |k: usize| n.ins.get(k).copied().flatten().map(|i| &p.vals[i]);
    let sum = |t: &T| t.v.iter().map(|x| x.abs()).sum::<f64>();
    match n.op {
        "Mul" => n.ins.iter().flatten().map(|i| if p.vals[*i].konst { p.vals[*i].t.absmax() } else { 1.0 }).product::<f64>().max(1.0),
        "BatchNormalization" => { let e = At(&n.attrs).f("epsilon", f64::from(1e-5f32)); let (sc, b, m, va) = (&v(1).unwrap().t, &v(2).unwrap().t, &v(3).unwrap().t, &v(4).unwrap().t); let mul: Vec<f64> = (0..sc.len()).map(|k| sc.v[k] / (va.v[k] + e).sqrt()).collect(); let add = (0..sc.len()).map(|k| (b.v[k] - m.v[k] * mul[k]).abs()).fold(0.0, f64::max); (mul.iter().fold(0.0f64, |a, x| a.max(x.abs())) + add).max(1.0) }
        _ => { let w = n.ins.iter().flatten().map(|i| &p.vals[*i]).filter(|x| x.konst).map(|x| &x.t).next().unwrap(); (sum(w) + v(2).map_or(0.0, |b| b.t.absmax())).max(1.0) }
    }
}

pub fn c16() -> Check {
    Check::new("C16", "exploration", "digits 0-12, bit widths 5-64, bounds up to 2^40 for the scale rules; single weighted layers with constants up to 1000 for the model rule; every scale case and every accepted or refused model is non-trivial")
        .assume("bit widths up to 64, for which a scale fits its 64-bit field")
        .prop("scales", 300_000, 4_000_000, c16_scales)
        .prop("models", 60_000, 1_000_000, c16_model)
}

// ------------------------------------------------------------ C17

fn c17_bn(s: &mut Src) -> R {
    let mut p = Prog::new();
    p.cmax = s.pickc(&[3.0, 1.0, 30.0]);
    for _ in 0..s.usize_in(1, 3) { let op = s.pickc(&["BatchNormalization", "BatchNormalization", "Relu", "Conv"]); gen_op(s, &mut p, op); }
    if !p.nodes.iter().any(|n| n.op == "BatchNormalization") { return Err(Fail::Discard); }
    let e = Enc { shuffle: s.bool(), symbolic: false };
    let m = p.encode(s, &e);
    let cfg = scale(s, 20);
    s.note(|| format!("alpha {} {}", cfg.alpha, p.desc()));
    let l = load_model(&m)?;
    let q = quantize(l.graph.clone(), &cfg)?.map_err(|e| Fail::Violation(format!("refused: {e}")))?;
    for (k, n) in p.nodes.iter().enumerate().filter(|(_, n)| n.op == "BatchNormalization") {
        s.nontrivial();
        let lay = layer(&q.graph, &p.node_name(k))?;
        ensure_eq!(format!("{:?}", lay.op_type), "BatchNormalization", "operator");
        ensure_eq!(lay.inputs.len(), 3, "inputs of the folded layer");
        ensure_eq!(lay.inputs[0], p.vals[n.ins[0].unwrap()].name, "data input");
        let t = |k: usize| &p.vals[n.ins[k].unwrap()].t;
        let eps = At(&n.attrs).f("epsilon", f64::from(1e-5f32));
        let mul: Vec<f64> = (0..t(1).len()).map(|c| t(1).v[c] / (t(4).v[c] + eps).sqrt()).collect();
        let add: Vec<f64> = (0..t(1).len()).map(|c| t(2).v[c] - t(3).v[c] * mul[c]).collect();
        let get = |k: usize| lay.weights.get(&lay.inputs[k]).ok_or_else(|| Fail::Violation(format!("folded parameter {} is missing", lay.inputs[k])));
        let (wm, wa) = (get(1)?, get(2)?);
        ensure!(lay.inputs[1] != lay.inputs[2], "factor and summand share the name {}", lay.inputs[1]);
        ensure_eq!((wm.shape(), wa.shape()), (vec![mul.len()], vec![mul.len()]), "shape of the folded parameters");
        let a = cfg.alpha as f64;
        let tol = |k: usize| 1e-11 * (t(2).absmax() + t(3).absmax() * mul[k].abs()) * a * a + 0.5 + 1e-9;
        rounded(&wm.int_data, &mul, a, "factor", 1e-12)?;
        for c in 0..add.len() { let x = add[c] * a * a; ensure!((wa.int_data[c] as f64 - x).abs() <= tol(c) + 1e-12 * x.abs(), "summand[{c}]: {} stored as {}, scaled it is {x}", add[c], wa.int_data[c]); }
        // the folded integers compute the normalisation
        let x = t(0); let y = &p.vals[n.outs[0]].t;
        let ix = indices(&x.shape);
        for (i, xi) in ix.iter().zip(&x.v) {
            let c = i[1];
            let z = (xi * a).round() * wm.int_data[c] as f64 + wa.int_data[c] as f64;
            let want = y.at(i) * a * a;
            let err = 0.5 * mul[c].abs() * a + 0.5 * xi.abs() * a + 2.0 + 1e-6 * want.abs() + 1e-9 * a * a * (t(2).absmax() + t(3).absmax() * mul[c].abs());
            ensure!((z - want).abs() <= err, "element {i:?}: integer normalisation gives {} instead of {}", z / a / a, want / a / a);
        }
    }
    Ok(())
}

fn c17_pow(s: &mut Src) -> R {
    let mut p = Prog::new();
    let x = p.some(s, 1, 4);
    let e = s.pickc(&[0.5, 0.5, 2.0, 1.0, 3.0, 0.25, 0.501, 1.5]);
    let n = s.usize_in(1, 2);
    let pos = p.apply(s, "Relu", vec![Some(x)], vec![], 1).ok_or(Fail::Discard)?[0];
    let sh = match s.draw(2) { 0 => vec![], 1 => vec![1], _ => p.t(pos).shape.clone() };
    let len = sh.iter().product::<usize>();
    let dt = s.pickc(&[Dt::F, Dt::D]);
    let c = p.konst(s, T::new(sh, vec![f64::from(e as f32); len], dt));
    for _ in 0..n { p.apply(s, "Pow", vec![Some(pos), Some(c)], vec![], 1).ok_or(Fail::Discard)?; }
    let m = p.encode(s, &Enc::default());
    s.note(|| p.desc()); s.nontrivial();
    let l = load_model(&m)?;
    let one = len == 1;
    match quantize(l.graph.clone(), &ScaleConfig::default())? {
        Err(m) => ensure!(!one, "a constant exponent {e} is refused: {m}"),
        Ok(q) => for (k, n) in p.nodes.iter().enumerate().filter(|(_, n)| n.op == "Pow") {
            let lay = layer(&q.graph, &p.node_name(k))?;
            let sqrt = e == 0.5 && one;
            ensure_eq!(lay.op_type, if sqrt { OpType::Sqrt } else { OpType::Pow }, "operator for exponent {e}");
            ensure_eq!(lay.inputs[0], p.vals[n.ins[0].unwrap()].name, "base operand");
            ensure_eq!(lay.outputs, vec![p.vals[n.outs[0]].name.clone()], "output");
            if sqrt { s.label("sqrt"); ensure_eq!(lay.inputs.len(), 1, "operands of the square root"); ensure!(lay.weights.is_empty(), "the exponent stays attached to the square root"); }
            else { let w = lay.weights.get(&lay.inputs[1]).ok_or_else(|| Fail::Violation("the exponent is gone".into()))?; ensure_eq!(w.as_f64_vec(), p.vals[c].t.v, "exponent"); }
        },
    }
    Ok(())
}

pub fn c17() -> Check {
    Check::new("C17", "exploration", "batch normalisations of rank 2-5 (one to three layers, random epsilon, scales of several bases) and powers with constant exponents near and at 0.5; non-trivial: a normalisation or power is rewritten or has to be left alone")
        .assume("variance plus epsilon is positive; exponents broadcast without raising the rank")
        .prop("batchnorm", 60_000, 1_000_000, c17_bn)
        .prop("square_root", 40_000, 600_000, c17_pow)
        .prop("bad_variance", 20_000, 200_000, |s| {
            let mut p = Prog::new();
            let c = s.usize_in(1, 4);
            let x = p.input(s, vec![1, c, 2], Dt::F);
            let mk = |s: &mut Src, p: &mut Prog, v: Vec<f64>| p.konst(s, T::new(vec![v.len()], v, Dt::F));
            let bad = s.bool();
            let at = s.below(c);
            let a = mk(s, &mut p, vec![1.0; c]); let b = mk(s, &mut p, vec![0.5; c]); let mm = mk(s, &mut p, vec![0.25; c]);
            let mut va = vec![1.0; c]; if bad { va[at] = -1.0; } else if s.bool() { va[at] = 0.0; }
            let v = mk(s, &mut p, va.clone());
            let y = Val { name: "y".into(), t: T::new(vec![1, c, 2], vec![0.0; 2 * c], Dt::F), kind: Kind::Out, konst: false };
            p.vals.push(y); let yk = p.vals.len() - 1;
            p.nodes.push(Node { op: "BatchNormalization", ins: vec![Some(x), Some(a), Some(b), Some(mm), Some(v)], attrs: vec![], outs: vec![yk], omit: vec![false] });
            s.note(|| format!("variances {va:?}")); s.nontrivial();
            let m = p.encode(s, &Enc::default());
            let l = load_model(&m)?;
            let r = quantize(l.graph, &ScaleConfig::default())?;
            ensure!(r.is_err() == bad, "variances {va:?}: {}", if bad { "accepted" } else { "refused" });
            Ok(())
        })
}

// ------------------------------------------------------------ C21

fn same_layer(a: &LayerNode, b: &LayerNode) -> bool {
    a.id == b.id && a.name == b.name && a.op_type == b.op_type && a.inputs == b.inputs && a.outputs == b.outputs && a.output_shape == b.output_shape && a.needs_rescale == b.needs_rescale && a.n_bits == b.n_bits
        && a.weights.len() == b.weights.len() && a.weights.iter().all(|(k, v)| b.weights.get(k).is_some_and(|w| same_td(v, w)))
        && a.attributes.len() == b.attributes.len() && a.attributes.iter().all(|(k, v)| b.attributes.get(k).is_some_and(|w| format!("{v:?}") == format!("{w:?}")))
}

fn same_model(a: &QuantizedModel, b: &QuantizedModel) -> R {
    ensure_eq!(b.graph.layers.len(), a.graph.layers.len(), "layers");
    for (x, y) in a.graph.layers.iter().zip(&b.graph.layers) { ensure!(same_layer(x, y), "layer {} differs: {y:?} instead of {x:?}", x.name); }
    ensure_eq!((&b.graph.input_names, &b.graph.output_names, &b.graph.topo_order, &b.graph.input_shapes), (&a.graph.input_names, &a.graph.output_names, &a.graph.topo_order, &a.graph.input_shapes), "graph");
    ensure_eq!((b.scale_config.base, b.scale_config.exponent, b.scale_config.alpha), (a.scale_config.base, a.scale_config.exponent, a.scale_config.alpha), "scale");
    ensure_eq!(b.n_bits_config, a.n_bits_config, "bit widths");
    Ok(())
}

fn c21_case(s: &mut Src) -> R {
    let p = linear_prog(s, 4);
    if p.nodes.is_empty() { return Err(Fail::Discard); }
    let m = p.encode(s, &Enc::default());
    let cfg = scale(s, 20);
    s.note(|| p.desc());
    let l = load_model(&m)?;
    let Ok(mut q) = quantize(l.graph, &cfg)? else { return Err(Fail::Discard) };
    // overrides
    let before = q.clone();
    let mut ov: HashMap<String, usize> = HashMap::new();
    for k in 0..p.nodes.len() { if s.bool() { ov.insert(p.node_name(k), s.usize_in(1, 80)); } }
    if s.chance(1, 3) { ov.insert("no_such_layer".into(), 7); }
    if ov.len() >= 2 { s.nontrivial(); }
    q.apply_observed_n_bits(&ov);
    for (a, b) in before.graph.layers.iter().zip(&q.graph.layers) {
        let want = ov.get(&a.name).copied().or(a.n_bits);
        ensure_eq!(b.n_bits, want, "bit width of {} after overrides", a.name);
        ensure_eq!(q.n_bits_config.get(&a.name).copied(), want, "configured bit width of {} after overrides", a.name);
        let mut a2 = a.clone(); a2.n_bits = b.n_bits;
        ensure!(same_layer(&a2, b), "overriding bit widths changed layer {}", a.name);
    }
    ensure!(!q.n_bits_config.contains_key("no_such_layer"), "a bit width for a layer that does not exist");
    // storage
    let compress = s.bool();
    let bytes = jstprove_io::serialize_to_bytes(&q, compress).map_err(|e| format!("{e:#}"))?;
    let back: QuantizedModel = jstprove_io::deserialize_from_bytes(&bytes).map_err(|e| format!("a stored model cannot be read: {e:#}"))?;
    same_model(&q, &back)
}

pub fn c21() -> Check {
    Check::new("C21", "exploration", "quantized models of 1-4 nodes with random bit-width overrides (including unknown layers), stored compressed and uncompressed; non-trivial: at least two overrides")
        .prop("overrides_and_storage", 60_000, 1_000_000, c21_case)
}

// ------------------------------------------------------------ C22

fn shuffle_names(s: &mut Src, p: &Prog) -> Prog {
    let mut r = p.clone();
    let pm = s.perm(r.vals.len());
    for (k, v) in r.vals.iter_mut().enumerate() { v.name = format!("{}{}", ["t", "zz/", "0", "Ä"][k % 4], pm[k]); }
    r
}

fn view(l: &Loaded, q: &QuantizedModel, p: &Prog) -> Result<Vec<String>, Fail> {
    let sh = ox::shape_inference::infer_all_shapes(&l.model, &l.graph).ok();
    let mut o = vec![];
    for (k, n) in p.nodes.iter().enumerate() {
        if n.op == "Constant" { continue; }
        let lay = layer(&q.graph, &p.node_name(k))?;
        let mut w: Vec<(usize, Vec<i64>, Vec<f64>)> = lay.inputs.iter().enumerate().filter_map(|(i, nm)| lay.weights.get(nm).map(|t| (i, t.int_data.clone(), t.float_data.clone()))).collect();
        w.sort_by_key(|x| x.0);
        let shape: Vec<Option<&Vec<usize>>> = n.outs.iter().map(|i| sh.as_ref().and_then(|m| m.get(&p.vals[*i].name))).collect();
        o.push(format!("{} n_bits={:?} op={:?} shape={shape:?} weights={w:?}", n.op, lay.n_bits, lay.op_type));
    }
    Ok(o)
}

fn c22_case(s: &mut Src) -> R {
    let mut p = Prog::new();
    p.flat = s.chance(1, 3);
    let all = all_ops();
    for _ in 0..s.usize_in(1, 5) { let op = if s.bool() { s.pickc(&["Gemm", "Conv", "MatMul", "ReduceSum", "Mul", "Add", "Relu", "Concat"]) } else { s.pickc(&all) }; gen_op(s, &mut p, op); }
    if p.nodes.is_empty() { return Err(Fail::Discard); }
    let m1 = p.encode(s, &Enc::default());
    let mut r = shuffle_names(s, &p);
    // constants move between initializers (listed or not) and Constant nodes
    for v in &mut r.vals { if let Kind::Init { listed } = &mut v.kind { *listed = s.bool(); } }
    let m2 = r.encode(s, &Enc { shuffle: true, symbolic: true });
    // dims not declared by the second encoding still mean one
    let cfg = scale(s, 20);
    s.note(|| p.desc());
    if p.nodes.iter().filter(|n| n.op != "Constant").count() >= 2 { s.nontrivial(); }
    let (l1, l2) = (load_model(&m1)?, load_model(&m2)?);
    match (quantize(l1.graph.clone(), &cfg)?, quantize(l2.graph.clone(), &cfg)?) {
        (Ok(a), Ok(b)) => { let (a, b) = (view(&l1, &a, &p)?, view(&l2, &b, &r)?); for (x, y) in a.iter().zip(&b) { ensure!(x == y, "renaming and reordering the model changes {x} into {y}"); } }
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("renaming and reordering changes acceptance: {:?} / {:?}", a.err(), b.err()).into()),
    }
    Ok(())
}

pub fn c22() -> Check {
    Check::new("C22", "exploration", "pairs of encodings of one random model (1-5 nodes): tensors renamed, nodes reordered, initializers listed as inputs or not, data raw or typed, unit dims symbolic; non-trivial: at least two nodes besides constants")
        .prop("renaming", 60_000, 1_000_000, c22_case)
}
