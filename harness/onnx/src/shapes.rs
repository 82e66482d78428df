//! C10-C13: inferred shapes against executed shapes.
use crate::prog::*;
use crate::t::*;
use crate::{load_model, Loaded};
use jstprove_onnx::shape_inference::{broadcast_shapes, infer_all_shapes};
use pbt::*;

/// every tensor's inferred shape must equal the shape execution gives it
pub fn check_shapes(p: &Prog, l: &Loaded) -> R {
    let got = match no_panic(|| infer_all_shapes(&l.model, &l.graph)) {
        Err(m) => return Err(format!("shape inference panicked: {m}").into()),
        Ok(Err(e)) => {
            if p.ext { return Ok(()); }
            return Err(format!("shape inference refuses a valid model: {e:#}").into());
        }
        Ok(Ok(g)) => g,
    };
    for n in &p.nodes {
        for (o, om) in n.outs.iter().zip(&n.omit) {
            if *om { continue; }
            let v = &p.vals[*o];
            match got.get(&v.name) {
                None => return Err(format!("no shape for '{}', an output of {}", v.name, n.op).into()),
                Some(s) => ensure!(s == &v.t.shape, "{} output '{}': inferred shape {:?}, executing it gives {:?}", n.op, v.name, s, v.t.shape),
            }
        }
    }
    for v in &p.vals {
        if v.kind != Kind::Out { if let Some(s) = got.get(&v.name) { ensure!(s == &v.t.shape, "'{}': shape {:?} recorded for a tensor of shape {:?}", v.name, s, v.t.shape); } }
    }
    Ok(())
}

fn random_prog(s: &mut Src, ops: &[&'static str], max: usize) -> Prog {
    let mut p = Prog::new();
    let n = s.usize_in(1, max);
    for _ in 0..n { let op = s.pickc(ops); gen_op(s, &mut p, op); }
    p
}

fn case(s: &mut Src, mut p: Prog) -> R {
    if p.nodes.is_empty() { return Err(Fail::Discard); }
    prune_outputs(s, &mut p);
    let enc = Enc { shuffle: s.bool(), symbolic: s.chance(1, 4) };
    let m = p.encode(s, &enc);
    s.note(|| p.desc());
    for n in &p.nodes { s.label(n.op); }
    if p.nodes.iter().filter(|n| n.op != "Constant").count() >= 2 { s.nontrivial(); }
    let l = load_model(&m)?;
    check_shapes(&p, &l)
}

/// trailing outputs a model does not use may be left out (an empty name)
fn prune_outputs(s: &mut Src, p: &mut Prog) {
    let used: std::collections::HashSet<usize> = p.nodes.iter().flat_map(|n| n.ins.iter().flatten().copied()).collect();
    for n in &mut p.nodes {
        if n.outs.len() > 1 && n.op != "Split" { for k in 1..n.outs.len() { if !used.contains(&n.outs[k]) && s.bool() { n.omit[k] = true; } } }
    }
}

fn mixed(s: &mut Src, main: &'static [&'static str], other: &'static [&'static str]) -> Prog {
    let mut p = Prog::new();
    let n = s.usize_in(1, 5);
    for _ in 0..n { let op = if s.chance(3, 4) { s.pickc(main) } else { s.pickc(other) }; gen_op(s, &mut p, op); }
    p
}

pub fn c10() -> Check {
    Check::new("C10", "exploration", "models of 1-5 elementwise, broadcasting, normalisation and matrix-product nodes over tensors of rank 0-5 (optional inputs, listed and unlisted initializers, Constant nodes, symbolic dims, shuffled node order); non-trivial: at least two nodes besides constants")
        .assume("input dims are positive; symbolic dims stand for 1, as the converter assumes")
        .prop("elementwise", 60_000, 1_200_000, |s| { let p = random_prog(s, &[UNARY, BINARY].concat(), 5); case(s, p) })
        .prop("linear", 60_000, 1_200_000, |s| { let p = mixed(s, LINEAR, BINARY); case(s, p) })
        .prop("refusals", 60_000, 600_000, |s| refusals(s, 0))
        .prop("broadcast_rule", 100_000, 2_000_000, |s| {
            let r = s.usize_in(0, 5); let a = dims(s, r, 4);
            let b = if s.chance(1, 3) { let r = s.usize_in(0, 5); dims(s, r, 4) } else { bcast_shape(s, &a) };
            s.note(|| format!("{a:?} with {b:?}"));
            if a != b && !a.is_empty() && !b.is_empty() { s.nontrivial(); }
            let want = bshape(&a, &b);
            let got = broadcast_shapes(&a, &b).ok();
            ensure_eq!(got, want, "broadcast of {a:?} and {b:?}");
            ensure_eq!(broadcast_shapes(&b, &a).ok(), want, "broadcast of {b:?} and {a:?}");
            Ok(())
        })
}

pub fn c11() -> Check {
    Check::new("C11", "exploration", "models of 1-5 convolution, transposed-convolution, pooling and pointwise nodes in 1, 2 and 3 spatial dimensions with random kernels, strides, dilations, groups, asymmetric pads, output padding, auto_pad and ceil_mode; non-trivial: at least two nodes besides constants")
        .assume("auto_pad SAME_*, ceil_mode=1 may be refused; an answer must be right")
        .prop("windows", 60_000, 1_200_000, |s| { let p = mixed(s, WINDOW, UNARY); case(s, p) })
        .prop("refusals", 60_000, 600_000, |s| refusals(s, 1))
        .prop("single_window", 60_000, 1_200_000, |s| { let mut p = Prog::new(); let op = s.pickc(WINDOW); gen_op(s, &mut p, op); if p.nodes.is_empty() { return Err(Fail::Discard); } s.nontrivial(); case(s, p) })
}

pub fn c12() -> Check {
    Check::new("C12", "exploration", "models of 1-6 data-movement nodes (Reshape with 0 and -1, Flatten, Squeeze, Unsqueeze, Transpose, Concat, Slice, Split, Tile, Expand, Pad, Gather, GatherElements, ScatterND, TopK, reductions, Resize, GridSample) with random axes in both signs and out-of-range slice limits; non-trivial: at least two nodes besides constants")
        .assume("negative slice steps, negative pads and TopK of smallest elements may be refused; an answer must be right")
        .prop("moves", 80_000, 1_600_000, |s| { let p = random_prog(s, MOVE, 6); case(s, p) })
        .prop("refusals", 60_000, 600_000, |s| refusals(s, 2))
        .prop("single_move", 80_000, 1_600_000, |s| { let mut p = Prog::new(); let op = s.pickc(MOVE); gen_op(s, &mut p, op); if p.nodes.is_empty() { return Err(Fail::Discard); } s.nontrivial(); case(s, p) })
}

/// operators whose integer operand may be the result of a constant subgraph
const CHAINED: &[&str] = &["Reshape", "Expand", "Tile", "Slice", "Pad", "Resize", "Unsqueeze", "Squeeze", "Split", "ReduceSum", "TopK", "ConstantOfShape", "Range"];

fn chained_op(s: &mut Src, p: &mut Prog, op: &'static str) -> Option<Vec<usize>> {
    match op {
        "ConstantOfShape" => {
            let r = s.usize_in(0, 4);
            let d: Vec<i64> = dims(s, r, 4).iter().map(|d| *d as i64).collect();
            let c = p.iconst(s, &d);
            let at = if s.bool() { vec![("value", A::T(T::new(vec![1], vec![2.5], Dt::F)))] } else { vec![] };
            p.apply(s, op, vec![Some(c)], at, 1)
        }
        "Range" => {
            let (a, n, d) = (s.range(-5, 5), s.range(0, 9), s.pickc(&[1i64, 2, 3, -1, -2]));
            let lim = a + n * d + if s.bool() { 0 } else { -d.signum() * s.range(0, d.abs() - 1) };
            let mut ins = vec![];
            for v in [a, lim, d] {
                let k = if p.chain && s.bool() { let x = p.iconst(s, &[v]); if s.bool() { let z = p.konst(s, T::scalar(0.0, Dt::I64)); p.apply(s, "Gather", vec![Some(x), Some(z)], vec![("axis", A::I(0))], 1)?[0] } else { let z = p.konst(s, T::ints(&[0])); p.apply(s, "Squeeze", vec![Some(x), Some(z)], vec![], 1)?[0] } } else { p.konst(s, T::scalar(v as f64, Dt::I64)) };
                ins.push(Some(k));
            }
            p.apply(s, op, ins, vec![], 1)
        }
        o => gen_op(s, p, o),
    }
}

pub fn c13() -> Check {
    Check::new("C13", "exploration", "models whose shape-determining operands are computed by random constant subgraphs (Shape with start/end, Gather, GatherElements, strided Slice, Concat, Cast, Reshape, Squeeze, Unsqueeze, up to four levels deep) and feed Reshape, Expand, Tile, Slice, Pad, Resize, Unsqueeze, Squeeze, Split, ReduceSum, TopK, ConstantOfShape and Range; non-trivial: at least two nodes besides constants")
        .prop("folded_operands", 80_000, 1_600_000, |s| {
            let mut p = Prog::new();
            p.chain = true;
            let n = s.usize_in(1, 3);
            for _ in 0..n { let op = s.pickc(CHAINED); chained_op(s, &mut p, op); }
            case(s, p)
        })
}

/// one malformed node on top of a well-formed program: no shape may be made up for it
pub fn refusals(s: &mut Src, group: usize) -> R {
    let mut p = Prog::new();
    let f = |p: &mut Prog, s: &mut Src, sh: Vec<usize>| -> usize { if s.bool() { p.input(s, sh, Dt::F) } else { let x = p.input(s, sh, Dt::F); match p.apply(s, "Relu", vec![Some(x)], vec![], 1) { Some(v) => v[0], None => x } } };
    let kinds: &[&str] = match group {
        0 => &["broadcast", "where", "variadic", "matmul", "gemm"],
        1 => &["conv_window", "pool_window", "zero_stride"],
        _ => &["reshape_count", "reshape_two_unknown", "transpose", "squeeze", "unsqueeze", "concat", "split", "topk", "expand", "axis_range"],
    };
    let kind = s.pickc(kinds);
    let r = s.usize_in(1, 4);
    let base = dims(s, r, 5);
    let k = s.below(r);
    let (op, ins, attrs, nout): (&'static str, Vec<Option<usize>>, Vec<(&'static str, A)>, usize) = match kind {
        "broadcast" | "where" | "variadic" => {
            let mut a = base.clone(); a[k] = s.usize_in(2, 5);
            let mut b = bcast_shape(s, &a);
            let off = a.len() - k; // distance from the right
            while b.len() < off { b.insert(0, 1); }
            let at = b.len() - off;
            b[at] = a[k] + s.usize_in(1, 3);
            let x = f(&mut p, s, a.clone()); let y = if s.bool() { p.fconst(s, b) } else { f(&mut p, s, b) };
            let (x, y) = if s.bool() { (x, y) } else { (y, x) };
            match kind {
                "broadcast" => (s.pickc(&["Add", "Sub", "Mul", "Div", "Pow", "Equal", "Greater", "Less", "And"]), vec![Some(x), Some(y)], vec![], 1),
                "variadic" => { let z = f(&mut p, s, vec![1]); let mut v = vec![Some(x), Some(y)]; let at = s.usize_in(0, 2); v.insert(at, Some(z)); (s.pickc(&["Max", "Min"]), v, vec![], 1) }
                _ => { let z = f(&mut p, s, vec![1]); let mut v = vec![Some(x), Some(y)]; let at = s.usize_in(0, 2); v.insert(at, Some(z)); ("Where", v, vec![], 1) }
            }
        }
        "matmul" => {
            let mut a = base.clone(); let kk = *a.last().unwrap();
            let n = s.usize_in(1, 4);
            let w = kk + s.usize_in(1, 3);
            let x = f(&mut p, s, { a.truncate(4); a }); let sh = if s.bool() { vec![w, n] } else { vec![w] };
            let y = if s.bool() { p.fconst(s, sh) } else { f(&mut p, s, sh) };
            ("MatMul", vec![Some(x), Some(y)], vec![], 1)
        }
        "gemm" => {
            let (m, kk, n) = (s.usize_in(1, 4), s.usize_in(1, 4), s.usize_in(1, 4));
            let (ta, tb) = (s.bool(), s.bool());
            let w = kk + s.usize_in(1, 3);
            let x = f(&mut p, s, if ta { vec![kk, m] } else { vec![m, kk] });
            let y = p.fconst(s, if tb { vec![n, w] } else { vec![w, n] });
            ("Gemm", vec![Some(x), Some(y)], vec![("transA", A::I(i64::from(ta))), ("transB", A::I(i64::from(tb)))], 1)
        }
        "conv_window" | "pool_window" | "zero_stride" => {
            let n = s.usize_in(1, 3);
            let sp: Vec<usize> = (0..n).map(|_| s.usize_in(1, 5)).collect();
            let mut kk: Vec<usize> = (0..n).map(|i| s.usize_in(1, sp[i])).collect();
            let mut st: Vec<i64> = (0..n).map(|_| s.range(1, 3)).collect();
            let j = s.below(n);
            if kind == "zero_stride" { st[j] = 0; } else { kk[j] = sp[j] + s.usize_in(1, 3); }
            let mut sh = vec![1, 2]; sh.extend(&sp);
            let x = f(&mut p, s, sh);
            let at = vec![("strides", A::Is(st)), ("kernel_shape", A::Is(kk.iter().map(|d| *d as i64).collect()))];
            if kind == "pool_window" || (kind == "zero_stride" && s.bool()) { (s.pickc(&["MaxPool", "AveragePool"]), vec![Some(x)], at, 1) }
            else { let mut ws = vec![2, 2]; ws.extend(&kk); let w = p.fconst(s, ws); ("Conv", vec![Some(x), Some(w)], at, 1) }
        }
        "reshape_count" => {
            let n: usize = base.iter().product();
            let mut t: Vec<i64> = refactor_shape(s, &base).iter().map(|d| *d as i64).collect();
            if s.bool() { t.push(n as i64 + 1); let at = s.below(t.len()); if s.bool() && t[at] == 1 { t[at] = -1; } let q: i64 = t.iter().filter(|d| **d > 0).product(); if t.contains(&-1) && n as i64 % q == 0 { return Err(Fail::Discard); } } else { t.push(2); }
            let x = f(&mut p, s, base.clone()); let c = p.iconst(s, &t);
            ("Reshape", vec![Some(x), Some(c)], vec![], 1)
        }
        "reshape_two_unknown" => { let x = f(&mut p, s, base.clone()); let c = p.iconst(s, &[-1, -1]); ("Reshape", vec![Some(x), Some(c)], vec![], 1) }
        "transpose" => {
            let mut q: Vec<i64> = s.perm(r).iter().map(|d| *d as i64).collect();
            match s.draw(2) { 0 if r > 1 => { let i = s.below(r); q[i] = q[(i + 1) % r]; } 1 => { q[k] = r as i64; } _ => { q.pop(); if q.is_empty() { return Err(Fail::Discard); } } }
            let x = f(&mut p, s, base.clone()); ("Transpose", vec![Some(x)], vec![("perm", A::Is(q))], 1)
        }
        "squeeze" => { let mut a = base.clone(); a[k] = s.usize_in(2, 4); let x = f(&mut p, s, a); let c = p.iconst(s, &[k as i64]); ("Squeeze", vec![Some(x), Some(c)], vec![], 1) }
        "unsqueeze" => { let x = f(&mut p, s, base.clone()); let v = if s.bool() { vec![k as i64, k as i64 - (r as i64 + 2)] } else { vec![r as i64 + 1] }; let c = p.iconst(s, &v); ("Unsqueeze", vec![Some(x), Some(c)], vec![], 1) }
        "concat" => { if r < 2 { return Err(Fail::Discard); } let mut b = base.clone(); let o = (k + 1 + s.below(r - 1)) % r; b[o] += 1; let x = f(&mut p, s, base.clone()); let y = f(&mut p, s, b); ("Concat", vec![Some(x), Some(y)], vec![("axis", A::I(k as i64))], 1) }
        "split" => { let x = f(&mut p, s, base.clone()); let c = p.iconst(s, &[base[k] as i64, 1]); ("Split", vec![Some(x), Some(c)], vec![("axis", A::I(k as i64))], 2) }
        "topk" => { let x = f(&mut p, s, base.clone()); let c = p.konst(s, T::ints(&[base[k] as i64 + 1])); ("TopK", vec![Some(x), Some(c)], vec![("axis", A::I(k as i64))], 2) }
        "expand" => { let mut a = base.clone(); a[k] = 2; let mut t: Vec<i64> = base.iter().map(|d| *d as i64).collect(); t[k] = 3; let x = f(&mut p, s, a); let c = p.iconst(s, &t); ("Expand", vec![Some(x), Some(c)], vec![], 1) }
        _ => {
            let x = f(&mut p, s, base.clone());
            let ax = if s.bool() { r as i64 + s.range(1, 2) } else { -(r as i64) - s.range(1, 2) };
            match s.draw(4) {
                0 => ("Flatten", vec![Some(x)], vec![("axis", A::I(ax))], 1),
                1 => { let y = f(&mut p, s, base.clone()); ("Concat", vec![Some(x), Some(y)], vec![("axis", A::I(ax))], 1) }
                2 => { let c = p.konst(s, T::ints(&[1])); ("TopK", vec![Some(x), Some(c)], vec![("axis", A::I(ax))], 2) }
                3 => { let c = p.iconst(s, &[ax]); (s.pickc(&["ReduceSum", "ReduceMean", "ReduceMax", "Squeeze"]), vec![Some(x), Some(c)], vec![], 1) }
                _ => { let c = p.iconst(s, &[base[0] as i64]); ("Split", vec![Some(x), Some(c)], vec![("axis", A::I(ax))], 1) }
            }
        }
    };
    // the malformed node itself, added without executing it
    let iv: Vec<Option<&T>> = ins.iter().map(|i| i.map(|i| p.t(i))).collect();
    if op != "And" && !["zero_stride", "axis_range", "transpose"].contains(&kind) && no_panic(|| eval(op, &attrs, &iv, nout)).ok().flatten().is_some() { return Err(Fail::Violation(format!("harness: the reference executes a malformed {op} ({kind}): {}", p.desc()))); }
    let outs: Vec<usize> = (0..nout).map(|i| { let v = Val { name: format!("bad{i}"), t: T::scalar(0.0, Dt::F), kind: Kind::Out, konst: false }; p.vals.push(v); p.vals.len() - 1 }).collect();
    p.nodes.push(Node { op, ins, attrs, omit: vec![false; nout], outs });
    let enc = Enc { shuffle: s.bool(), symbolic: false };
    // outputs are declared without a shape, so nothing but inference can supply one
    let mut m = p.encode(s, &enc);
    for o in &mut m.graph.as_mut().unwrap().output { o.r#type = None; }
    s.note(|| format!("{kind}: {}", p.desc()));
    s.label(kind);
    s.nontrivial();
    let l = load_model(&m)?;
    match no_panic(|| infer_all_shapes(&l.model, &l.graph)) {
        Err(e) => Err(format!("shape inference panicked: {e}").into()),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(g)) => Err(format!("malformed {op} ({kind}) is given the shape {:?}", g.get("bad0")).into()),
    }
}
