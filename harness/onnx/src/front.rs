//! C07-C09: parsing, malformed files, graph construction.
use crate::prog::*;
use crate::t::*;
use crate::load_model;
use jstprove_onnx as ox;
use ox::graph::{LayerGraph, OpType};
use ox::parser::{parse_onnx, AttrValue, TensorData};
use pbt::*;
use prost::Message;
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------ C07

fn nm(s: &mut Src, pre: &str, k: usize) -> String { match s.draw(9) { 0 => format!("{pre}/Ünï #{k}"), 1 => format!("{k}"), 2 => format!("{pre}.{k}.weight"), _ => format!("{pre}{k}") } }

/// (encoded tensor, element values, integer representation) or None for a form that must be refused
#[derive(Clone, Debug)]
enum Want { Floats(Vec<f64>), Ints(Vec<i64>), Refused(&'static str) }

fn any_tensor(s: &mut Src, name: &str, allow_bad: bool) -> (ox::TensorProto, Want, Vec<i64>) {
    let r = s.usize_in(0, 4);
    let mut dims: Vec<i64> = (0..r).map(|_| s.range(0, 4)).collect();
    if s.chance(1, 3) { for d in &mut dims { *d = (*d).max(1); } }
    let n: usize = dims.iter().product::<i64>() as usize;
    let mut p = ox::TensorProto { dims: dims.clone(), name: Some(name.into()), ..Default::default() };
    let fl = |s: &mut Src| -> f64 { s.f64_any(true) };
    let raw = s.bool();
    let want = match s.draw(5) {
        0 => { let v: Vec<f32> = (0..n).map(|_| fl(s) as f32).collect(); p.data_type = Some(1); if raw { p.raw_data = Some(v.iter().flat_map(|x| x.to_le_bytes()).collect()); } else { p.float_data = v.clone(); } Want::Floats(v.iter().map(|x| f64::from(*x)).collect()) }
        1 => { let v: Vec<f64> = (0..n).map(|_| fl(s)).collect(); p.data_type = Some(11); if raw { p.raw_data = Some(v.iter().flat_map(|x| x.to_le_bytes()).collect()); } else { p.double_data = v.clone(); } Want::Floats(v) }
        2 => { let v: Vec<i32> = (0..n).map(|_| s.i64_any() as i32).collect(); p.data_type = Some(6); if raw { p.raw_data = Some(v.iter().flat_map(|x| x.to_le_bytes()).collect()); } else { p.int32_data = v.clone(); } Want::Ints(v.iter().map(|x| i64::from(*x)).collect()) }
        3 => { let v: Vec<i64> = (0..n).map(|_| s.i64_any()).collect(); p.data_type = Some(7); if raw { p.raw_data = Some(v.iter().flat_map(|x| x.to_le_bytes()).collect()); } else { p.int64_data = v.clone(); } Want::Ints(v) }
        4 => { let v: Vec<bool> = (0..n).map(|_| s.bool()).collect(); p.data_type = Some(9); if raw { p.raw_data = Some(v.iter().map(|b| if *b { s.range(1, 255) as u8 } else { 0 }).collect()); } else { p.int32_data = v.iter().map(|b| i32::from(*b)).collect(); } Want::Ints(v.iter().map(|b| i64::from(*b)).collect()) }
        _ => { let dt = s.pickc(&[2i32, 3, 4, 5]); let v: Vec<i32> = (0..n).map(|_| match dt { 2 => s.range(0, 255), 3 => s.range(-128, 127), 4 => s.range(0, 65535), _ => s.range(-32768, 32767) } as i32).collect(); p.data_type = Some(dt); p.int32_data = v.clone(); Want::Ints(v.iter().map(|x| i64::from(*x)).collect()) }
    };
    if !allow_bad || n == 0 { return (p, want, dims); }
    // forms the tool does not decode: it must say so instead of inventing values
    let bad = match s.draw(5) {
        0 => { p.raw_data = None; p.float_data.clear(); p.double_data.clear(); p.int32_data.clear(); p.int64_data.clear(); p.data_location = Some(ox::tensor_proto::DataLocation::External as i32); p.external_data = vec![ox::StringStringEntryProto { key: Some("location".into()), value: Some("weights.bin".into()) }]; "weights stored in an external file" }
        1 => { p.raw_data = None; p.float_data.clear(); p.double_data.clear(); p.int64_data.clear(); p.data_type = Some(s.pickc(&[10i32, 16])); p.int32_data = (0..n).map(|_| s.range(1, 65535) as i32).collect(); "half-precision bit patterns" }
        2 => { let cut = s.usize_in(1, 3); if let Some(r) = &mut p.raw_data { let k = r.len().saturating_sub(cut); r.truncate(k); } else { for _ in 0..1 { p.float_data.pop(); p.double_data.pop(); p.int32_data.pop(); p.int64_data.pop(); } } "fewer values than the dimensions say" }
        3 => { if let Some(r) = &mut p.raw_data { for _ in 0..s.usize_in(1, 9) { r.push(1); } } else { match want { Want::Floats(_) => if p.data_type == Some(1) { p.float_data.push(1.0) } else { p.double_data.push(1.0) }, _ => if p.data_type == Some(7) { p.int64_data.push(1) } else { p.int32_data.push(1) } } } "more values than the dimensions say" }
        4 => { p.raw_data = None; p.float_data.clear(); p.double_data.clear(); p.int32_data.clear(); p.int64_data.clear(); p.data_type = Some(s.pickc(&[12i32, 13])); p.uint64_data = (0..n).map(|_| s.range(1, 1000) as u64).collect(); return (p.clone(), Want::Refused("unsigned values"), dims); }
        _ => { p.raw_data = Some(vec![1; n * 2]); p.float_data.clear(); p.double_data.clear(); p.int32_data.clear(); p.int64_data.clear(); p.data_type = Some(s.pickc(&[10i32, 16, 4, 5])); "raw 16-bit elements" }
    };
    (p, Want::Refused(bad), dims)
}

fn same_f(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }

fn tensor_is(got: &TensorData, want: &Want, dims: &[i64], what: &str) -> R {
    ensure_eq!(got.dims, dims.to_vec(), "{what}: dims");
    match want {
        Want::Floats(v) => {
            let g = got.as_f64_vec();
            ensure!(g.len() == v.len() && g.iter().zip(v).all(|(a, b)| same_f(*a, *b)), "{what}: values {g:?} instead of {v:?}");
            ensure!(got.float_data.len() == v.len() && got.int_data.is_empty(), "{what}: floats not kept as floats");
        }
        Want::Ints(v) => {
            ensure_eq!(got.as_i64_vec(), *v, "{what}: values");
            ensure!(got.int_data.len() == v.len() && got.float_data.is_empty(), "{what}: integers not kept as integers");
        }
        Want::Refused(_) => {}
    }
    ensure_eq!(got.total_elements(), dims.iter().product::<i64>() as usize, "{what}: total_elements");
    ensure_eq!(got.shape(), dims.iter().map(|d| *d as usize).collect::<Vec<_>>(), "{what}: shape");
    Ok(())
}

fn attr_is(got: Option<&AttrValue>, a: &ox::AttributeProto, w: &Option<(Want, Vec<i64>)>, what: &str) -> R {
    use ox::attribute_proto::AttributeType as Ty;
    let ok = match (got, Ty::try_from(a.r#type.unwrap()).unwrap()) {
        (Some(AttrValue::Int(v)), Ty::Int) => Some(*v) == a.i,
        (Some(AttrValue::Float(v)), Ty::Float) => Some(v.to_bits()) == a.f.map(f32::to_bits),
        (Some(AttrValue::String(v)), Ty::String) => Some(v.as_bytes()) == a.s.as_deref(),
        (Some(AttrValue::Ints(v)), Ty::Ints) => *v == a.ints,
        (Some(AttrValue::Floats(v)), Ty::Floats) => v.len() == a.floats.len() && v.iter().zip(&a.floats).all(|(x, y)| x.to_bits() == y.to_bits()),
        (Some(AttrValue::Tensor(t)), Ty::Tensor) => { let (w, d) = w.as_ref().unwrap(); return tensor_is(t, w, d, what); }
        _ => false,
    };
    ensure!(ok, "{what}: attribute read as {got:?} from {a:?}");
    Ok(())
}

fn c07_case(s: &mut Src, bad: bool) -> R {
    use ox::attribute_proto::AttributeType as Ty;
    let mut g = ox::GraphProto { name: Some("g".into()), ..Default::default() };
    let mut inits: Vec<(String, Want, Vec<i64>)> = vec![];
    let ni = s.usize_in(usize::from(bad), 4);
    let bad_at = if bad { s.below(ni + 1) } else { usize::MAX };
    for k in 0..ni {
        let n = nm(s, "w", k);
        if inits.iter().any(|i| i.0 == n) { continue; }
        let (t, w, d) = any_tensor(s, &n, k == bad_at);
        g.initializer.push(t);
        inits.push((n, w, d));
    }
    let nn = s.usize_in(usize::from(bad), 4);
    let mut wants: Vec<Vec<Option<(Want, Vec<i64>)>>> = vec![];
    for k in 0..nn {
        let mut node = ox::NodeProto { name: match s.draw(5) { 0 => None, _ => Some(nm(s, "n", k)) }, op_type: Some(s.pickc(&["Add", "Conv", "Custom", "Relu"]).into()), ..Default::default() };
        if s.chance(1, 4) { node.domain = Some(s.pickc(&["", "ai.onnx", "com.microsoft"]).into()); }
        for i in 0..s.usize_in(0, 3) { let x = if s.chance(1, 6) { String::new() } else { nm(s, "t", i + k) }; node.input.push(x); }
        for i in 0..s.usize_in(1, 2) { node.output.push(nm(s, "o", i + 10 * k)); }
        let mut aw = vec![];
        for (i, an) in ["alpha", "axis", "pads", "value", "mode", "größe"].iter().enumerate() {
            if s.chance(1, 3) || (bad_at == ni && k == 0 && i == 3) {
                let mut a = ox::AttributeProto { name: Some((*an).into()), ..Default::default() };
                let mut w = None;
                let pick = if bad_at == ni && k == 0 && i == 3 { 5 } else { s.draw(5) };
                let ty = match pick {
                    0 => { a.i = Some(s.i64_any()); Ty::Int }
                    1 => { a.f = Some(s.f64_any(true) as f32); Ty::Float }
                    2 => { a.s = Some(nm(s, "ß", i).into_bytes()); Ty::String }
                    3 => { a.ints = (0..s.usize_in(0, 4)).map(|_| s.i64_any()).collect(); Ty::Ints }
                    4 => { a.floats = (0..s.usize_in(0, 4)).map(|_| s.f64_any(true) as f32).collect(); Ty::Floats }
                    _ => { let (t, tw, td) = any_tensor(s, "c", bad_at == ni && k == 0 && i == 3); a.t = Some(t); w = Some((tw, td)); Ty::Tensor }
                };
                a.r#type = Some(ty as i32);
                node.attribute.push(a);
                aw.push(w);
            }
        }
        wants.push(aw);
        g.node.push(node);
    }
    let mut ios: Vec<Vec<(String, Vec<i64>, i32)>> = vec![vec![], vec![]];
    for (j, list) in ios.iter_mut().enumerate() {
        for k in 0..s.usize_in(0, 3) {
            use ox::tensor_shape_proto::{dimension::Value, Dimension};
            let name = nm(s, if j == 0 { "in" } else { "out" }, k);
            let et = s.pickc(&[1, 7, 9, 11]);
            let mut want = vec![];
            let dim: Vec<Dimension> = (0..s.usize_in(0, 4)).map(|_| { let (v, w) = match s.draw(4) { 0 => (Some(Value::DimParam("N".into())), -1), 1 => (None, -1), _ => { let d = s.range(1, 1000); (Some(Value::DimValue(d)), d) } }; want.push(w); Dimension { denotation: None, value: v } }).collect();
            let v = ox::ValueInfoProto { name: Some(name.clone()), r#type: Some(ox::TypeProto { value: Some(ox::type_proto::Value::TensorType(ox::type_proto::Tensor { elem_type: Some(et), shape: Some(ox::TensorShapeProto { dim }) })), ..Default::default() }), ..Default::default() };
            if j == 0 { g.input.push(v) } else { g.output.push(v) }
            list.push((name, want, et));
        }
    }
    let mut opset_import = vec![]; let mut opset = 0;
    for _ in 0..s.usize_in(0, 3) { let v = s.range(1, 22); let d = s.pickc(&[None, Some(""), Some("com.microsoft")]); if d != Some("com.microsoft") { opset = opset.max(v); } opset_import.push(ox::OperatorSetIdProto { domain: d.map(Into::into), version: Some(v) }); }
    let m = ox::ModelProto { ir_version: Some(8), opset_import, graph: Some(g.clone()), producer_name: Some("x".into()), ..Default::default() };
    let sc = Scratch::new("c07");
    let f = sc.path("m.onnx");
    write_model(&m, &f);
    s.note(|| format!("initializers {:?}, nodes {:?}", inits.iter().map(|(n, w, d)| format!("{n}{d:?}={w:?}")).collect::<Vec<_>>(), g.node.iter().map(|n| format!("{:?}:{:?} {:?}->{:?} attrs {:?}", n.name, n.op_type, n.input, n.output, n.attribute.iter().map(|a| a.name.clone().unwrap()).collect::<Vec<_>>())).collect::<Vec<_>>()));
    if inits.len() + wants.iter().map(Vec::len).sum::<usize>() >= 2 || bad { s.nontrivial(); }
    let got = no_panic(|| parse_onnx(&f)).map_err(|e| format!("parser panicked: {e}"))?;
    let refused = inits.iter().map(|i| &i.1).chain(wants.iter().flatten().flatten().map(|w| &w.0)).find_map(|w| if let Want::Refused(r) = w { Some(*r) } else { None });
    if let Some(why) = refused {
        s.label(why);
        if why == "unsigned values" {
            // may be refused or decoded, but never dropped
            if let Ok(got) = &got { for (n, _, d) in &inits { if let Some(t) = got.initializers.get(n) { ensure!(t.as_f64_vec().len() == d.iter().product::<i64>() as usize, "unsigned tensor '{n}' lost its values"); } } for (node, gn) in g.node.iter().zip(&got.nodes) { for a in &node.attribute { if let (Some(t), Some(AttrValue::Tensor(q))) = (&a.t, gn.attributes.get(a.name.as_ref().unwrap())) { ensure!(q.as_f64_vec().len() == t.dims.iter().product::<i64>() as usize, "unsigned tensor attribute lost its values"); } } } }
            return Ok(());
        }
        return match got { Err(_) => Ok(()), Ok(_) => Err(format!("a model with {why} is read without complaint").into()) };
    }
    let got = got.map_err(|e| format!("the parser refuses a valid model: {e:#}"))?;
    ensure_eq!(got.opset_version, opset, "opset version");
    ensure_eq!(got.initializers.len(), inits.len(), "number of initializers");
    for (n, w, d) in &inits {
        let Some(t) = got.initializers.get(n) else { return Err(format!("initializer '{n}' is missing").into()); };
        ensure_eq!(t.name, *n, "initializer name");
        tensor_is(t, w, d, &format!("initializer '{n}'"))?;
    }
    ensure_eq!(got.nodes.len(), g.node.len(), "number of nodes");
    for (k, (n, q)) in g.node.iter().zip(&got.nodes).enumerate() {
        match &n.name { Some(x) => ensure_eq!(q.name, *x, "node name"), None => ensure!(!q.name.is_empty() && got.nodes.iter().enumerate().all(|(j, o)| j == k || o.name != q.name || g.node[j].name.is_some()), "nodes without a name must get one each") };
        ensure_eq!(Some(&q.op_type), n.op_type.as_ref(), "operator of node {k}");
        ensure_eq!(q.domain, n.domain.clone().unwrap_or_default(), "domain of node {k}");
        ensure_eq!(q.inputs, n.input, "inputs of node {k}");
        ensure_eq!(q.outputs, n.output, "outputs of node {k}");
        ensure_eq!(q.attributes.len(), n.attribute.len(), "number of attributes of node {k}");
        for (a, w) in n.attribute.iter().zip(&wants[k]) { attr_is(q.attributes.get(a.name.as_ref().unwrap()), a, w, &format!("node {k} attribute {:?}", a.name))?; }
    }
    for (list, q, what) in [(&ios[0], &got.inputs, "input"), (&ios[1], &got.outputs, "output")] {
        ensure_eq!(q.iter().map(|i| (i.name.clone(), i.shape.clone(), i.elem_type)).collect::<Vec<_>>(), *list, "{what} specs");
    }
    Ok(())
}

pub fn c07() -> Check {
    Check::new("C07", "exploration", "protobuf models with random nodes, attributes of every kind, initializers of every element type in raw and typed encodings, value infos with fixed and symbolic dims and several opset imports, written to a file and parsed; plus models carrying one tensor in a form the tool cannot decode; non-trivial: at least two tensors/attributes, or an undecodable tensor")
        .prop("fidelity", 120_000, 2_000_000, |s| c07_case(s, false))
        .prop("undecodable", 60_000, 800_000, |s| c07_case(s, true))
}

// ------------------------------------------------------------ C08

/// everything a converter run does with a file; only panics and hangs count
fn pipeline(bytes: &[u8], s: &mut Src) -> Result<&'static str, Fail> {
    let sc = Scratch::new("c08");
    let f = sc.path("m.onnx");
    let o = sc.path("o.onnx");
    std::fs::write(&f, bytes).unwrap();
    let run = |what: &str, r: Result<(), String>| -> R { r.map_err(|m| Fail::Violation(format!("{what} panicked: {m}"))) };
    let mut stage = "unreadable";
    run("is_compatible", no_panic(|| { let _ = ox::compat::is_compatible(&f); }))?;
    let huge = ox::ModelProto::decode(bytes).ok().and_then(|m| m.graph).is_some_and(|g| g.initializer.iter().any(|i| i.dims.iter().any(|d| *d > 1 << 24)));
    if !huge { run("add_zero_bias_to_conv", no_panic(|| { let _ = ox::compat::add_zero_bias_to_conv(&f, &o); }))?; }
    let Ok(m) = no_panic(|| parse_onnx(&f)).map_err(|m| Fail::Violation(format!("parser panicked: {m}")))? else { return Ok(stage); };
    stage = "parsed";
    let Ok(g) = no_panic(|| LayerGraph::from_parsed(&m)).map_err(|m| Fail::Violation(format!("graph construction panicked: {m}")))? else { return Ok(stage); };
    stage = "graph";
    run("shape inference", no_panic(|| { if ox::shape_inference::infer_all_shapes(&m, &g).is_ok() { stage = "shapes"; } }))?;
    let digits = s.usize_in(0, 6) as u32;
    run("quantization", no_panic(|| { if ox::quantizer::quantize_model(g.clone(), &ox::quantizer::ScaleConfig::default()).is_ok() { stage = "quantized"; } }))?;
    run("quantization for a precision", no_panic(|| { let _ = ox::quantizer::quantize_model_for_precision(g.clone(), digits, 64); }))?;
    Ok(stage)
}

fn small_prog(s: &mut Src) -> Prog {
    let mut p = Prog::new();
    p.chain = s.chance(1, 3);
    let all = [UNARY, BINARY, LINEAR, WINDOW, MOVE].concat();
    for _ in 0..s.usize_in(1, 4) { let op = s.pickc(&all); gen_op(s, &mut p, op); }
    p
}

/// a structural edit a hand-made or damaged model could show
fn corrupt(s: &mut Src, m: &mut ox::ModelProto) -> &'static str {
    let g = m.graph.as_mut().unwrap();
    let small = |s: &mut Src| match s.draw(9) { 0 => 0, 1 => -1, 2 => 1 << 20, 3 => -(1 << 20), _ => s.range(-5, 9) };
    match s.draw(11) {
        0 if !g.node.is_empty() => { let k = s.below(g.node.len()); let n = g.node[k].input.len(); if n > 0 { let t = s.below(n); g.node[k].input.truncate(t); } "inputs dropped" }
        1 if !g.node.is_empty() => { let k = s.below(g.node.len()); let n = g.node[k].attribute.len(); if n > 0 { let t = s.below(n); g.node[k].attribute.remove(t); } "attribute dropped" }
        2 if !g.node.is_empty() => { let k = s.below(g.node.len()); let n = g.node[k].attribute.len(); if n > 0 { let t = s.below(n); let a = &mut g.node[k].attribute[t]; if let Some(i) = &mut a.i { *i = small(s); } for v in &mut a.ints { if s.bool() { *v = small(s); } } if s.chance(1, 4) { a.ints.pop(); } if s.chance(1, 4) { a.ints.push(1); } } "attribute value" }
        3 if !g.initializer.is_empty() => { let k = s.below(g.initializer.len()); let t = &mut g.initializer[k]; if let Some(j) = (!t.dims.is_empty()).then(|| s.below(t.dims.len())) { match s.draw(2) { 0 => { t.dims.remove(j); } 1 => t.dims[j] = small(s), _ => t.dims.insert(j, 1) } } "initializer dims" }
        4 if !g.initializer.is_empty() => { let k = s.below(g.initializer.len()); let t = &mut g.initializer[k]; t.raw_data = None; t.float_data.clear(); t.int64_data.clear(); t.int32_data.clear(); t.double_data.clear(); "initializer emptied" }
        5 if !g.initializer.is_empty() => { let k = s.below(g.initializer.len()); let t = &mut g.initializer[k]; for v in &mut t.int64_data { *v = small(s); } for v in &mut t.float_data { *v = s.f64_any(true) as f32; } "initializer values" }
        6 if !g.input.is_empty() => { let k = s.below(g.input.len()); if let Some(ox::type_proto::Value::TensorType(t)) = g.input[k].r#type.as_mut().and_then(|t| t.value.as_mut()) { if let Some(sh) = &mut t.shape { match s.draw(2) { 0 => { sh.dim.pop(); } 1 => sh.dim.clear(), _ => for d in &mut sh.dim { if s.bool() { let v = small(s).clamp(-1, 64); d.value = Some(ox::tensor_shape_proto::dimension::Value::DimValue(v)); } } } } } "input shape" }
        7 if !g.input.is_empty() => { let k = s.below(g.input.len()); if s.bool() { g.input.remove(k); } else { g.input[k].r#type = None; } "input undeclared" }
        8 if !g.node.is_empty() => { let k = s.below(g.node.len()); let op = s.pickc(&[UNARY, BINARY, LINEAR, WINDOW, MOVE].concat()); g.node[k].op_type = Some(op.into()); "operator replaced" }
        9 if !g.node.is_empty() => { let k = s.below(g.node.len()); g.node[k].output.clear(); "outputs dropped" }
        10 if !g.node.is_empty() => { let names: Vec<String> = g.node.iter().flat_map(|n| n.output.clone()).chain(g.initializer.iter().filter_map(|i| i.name.clone())).collect(); let k = s.below(g.node.len()); if !g.node[k].input.is_empty() { let j = s.below(g.node[k].input.len()); g.node[k].input[j] = if names.is_empty() { "nowhere".into() } else { s.pickc(&names) }; } "input rewired" }
        _ => { if !g.initializer.is_empty() { let k = s.below(g.initializer.len()); g.initializer.remove(k); } "initializer removed" }
    }
}

pub fn c08() -> Check {
    Check::new("C08", "exploration", "arbitrary bytes, damaged encodings of valid models (truncated, spliced, bit-flipped) and structurally corrupted models (inputs, attributes, dims, operators, wiring changed at random) put through compatibility check, bias insertion, parsing, graph construction, shape inference and quantization; non-trivial: the file still parses as a model")
        .assume("integers in corrupted models stay within 2^20 in magnitude and declared input dims within 64, so that no intermediate size exceeds memory")
        .prop("bytes", 60_000, 1_000_000, |s| {
            let n = s.usize_in(0, 200);
            let b = if s.chance(1, 6) { s.blob(n) } else { let p = small_prog(s); let m = p.encode(s, &Enc::default()); let mut b = m.encode_to_vec(); let many = if s.chance(2, 3) { 1 } else { s.usize_in(1, 3) }; for _ in 0..many { if b.is_empty() { break; } match s.draw(9).min(3 + s.draw(1)) { 0 => { let k = s.below(b.len()); b.truncate(k); } 1 | 4.. => { let k = s.below(b.len()); b[k] ^= 1 << s.below(8); } 2 => { let k = s.below(b.len()); b[k] = s.draw(255) as u8; } _ => { let k = s.below(b.len()); let l = s.usize_in(1, 12).min(b.len() - k); let c = b[k..k + l].to_vec(); let at = s.below(b.len()); b.splice(at..at, c); } } } b };
            s.note(|| format!("{} bytes", b.len()));
            let st = pipeline(&b, s)?;
            s.label(st);
            if st != "unreadable" { s.nontrivial(); }
            Ok(())
        })
        .prop("structures", 120_000, 2_000_000, |s| {
            let p = small_prog(s);
            let e = Enc { shuffle: s.bool(), symbolic: s.bool() };
            let mut m = p.encode(s, &e);
            let mut what = vec![];
            for _ in 0..s.usize_in(1, 3) { let w = corrupt(s, &mut m); s.label(w); what.push(w); }
            s.note(|| format!("{what:?} in {}", p.desc()));
            let st = pipeline(&m.encode_to_vec(), s)?;
            s.label(st);
            if st != "unreadable" { s.nontrivial(); }
            Ok(())
        })
}

// ------------------------------------------------------------ C09

fn c09_graph(s: &mut Src) -> R {
    let p = small_prog(s);
    if p.nodes.is_empty() { return Err(Fail::Discard); }
    let e = Enc { shuffle: s.chance(3, 4), symbolic: s.bool() };
    let m = p.encode(s, &e);
    s.note(|| p.desc());
    if p.nodes.len() >= 3 { s.nontrivial(); }
    let l = load_model(&m)?;
    let g = m.graph.as_ref().unwrap();
    let gr = &l.graph;
    ensure_eq!(gr.layers.len(), g.node.len(), "number of layers");
    let inits: HashMap<String, &TensorData> = l.model.initializers.iter().map(|(k, v)| (k.clone(), v)).collect();
    let consts: HashMap<String, &T> = p.nodes.iter().filter(|n| n.op == "Constant").map(|n| (p.vals[n.outs[0]].name.clone(), &p.vals[n.outs[0]].t)).collect();
    for (k, (n, q)) in g.node.iter().zip(&gr.layers).enumerate() {
        ensure_eq!(q.id, k, "layer id");
        ensure_eq!(Some(&q.name), n.name.as_ref(), "layer name");
        ensure_eq!(format!("{:?}", q.op_type), n.op_type.clone().unwrap(), "layer operator");
        ensure_eq!(q.inputs, n.input, "layer inputs");
        ensure_eq!(q.outputs, n.output, "layer outputs");
        let want: HashSet<&String> = n.input.iter().filter(|i| inits.contains_key(*i) || consts.contains_key(*i)).collect();
        ensure_eq!(q.weights.keys().collect::<HashSet<_>>(), want, "constants attached to layer {k}");
        for (w, t) in &q.weights {
            let v = p.vals.iter().find(|v| v.name == *w).unwrap();
            ensure_eq!(t.as_f64_vec(), v.t.v, "values of '{w}' attached to layer {k}");
            ensure_eq!(t.shape(), v.t.shape, "shape of '{w}' attached to layer {k}");
        }
        ensure_eq!(q.attributes.len(), n.attribute.len(), "attributes of layer {k}");
        for a in &n.attribute {
            let nm = a.name.as_ref().unwrap();
            if let Some(i) = a.i { ensure_eq!(q.get_int_attr(nm), Some(i), "int attribute {nm}"); ensure!(q.get_ints_attr(nm).is_none() && q.get_float_attr(nm).is_none() && q.get_string_attr(nm).is_none(), "attribute {nm} answers to a wrong type"); }
            if let Some(f) = a.f { ensure_eq!(q.get_float_attr(nm), Some(f), "float attribute {nm}"); }
            if a.r#type == Some(7) { ensure_eq!(q.get_ints_attr(nm), Some(&a.ints[..]), "ints attribute {nm}"); }
            if let Some(x) = &a.s { ensure_eq!(q.get_string_attr(nm).map(str::as_bytes), Some(&x[..]), "string attribute {nm}"); }
        }
        ensure_eq!(q.needs_rescale, ["Gemm", "Conv", "BatchNormalization", "Mul", "MatMul", "ConvTranspose"].contains(&n.op_type.as_deref().unwrap()), "needs_rescale of {:?}", n.op_type);
    }
    // order
    let mut pos = vec![usize::MAX; gr.layers.len()];
    ensure_eq!(gr.topo_order.len(), gr.layers.len(), "topological order length");
    for (i, k) in gr.topo_order.iter().enumerate() { ensure!(*k < pos.len() && pos[*k] == usize::MAX, "topological order is not a permutation: {:?}", gr.topo_order); pos[*k] = i; }
    let by_out: HashMap<&String, usize> = gr.layers.iter().enumerate().flat_map(|(k, q)| q.outputs.iter().filter(|o| !o.is_empty()).map(move |o| (o, k))).collect();
    for (k, q) in gr.layers.iter().enumerate() { for i in &q.inputs { if let Some(d) = by_out.get(i) { ensure!(pos[*d] < pos[k], "layer {k} ({:?}) comes before layer {d}, which computes its input '{i}'", q.op_type); } } }
    let it: Vec<usize> = gr.iter_topo().map(|q| q.id).collect();
    ensure_eq!(it, gr.topo_order, "iter_topo order");
    // interface
    let want_in: Vec<String> = g.input.iter().filter_map(|i| i.name.clone()).filter(|n| !inits.contains_key(n)).collect();
    ensure_eq!(gr.input_names, want_in, "graph inputs");
    ensure_eq!(gr.output_names, g.output.iter().filter_map(|o| o.name.clone()).collect::<Vec<_>>(), "graph outputs");
    ensure_eq!(gr.input_shapes.len(), want_in.len(), "number of input shapes");
    for v in p.vals.iter().filter(|v| v.kind == Kind::In) {
        let sh = if v.t.shape.len() >= 2 { v.t.shape[1..].to_vec() } else { v.t.shape.clone() };
        ensure_eq!(gr.input_shapes.get(&v.name), Some(&sh), "per-sample shape of input '{}'", v.name);
    }
    Ok(())
}

/// a random dependency graph given by names only
fn c09_cycles(s: &mut Src) -> R {
    let n = s.usize_in(2, 12);
    let perm = s.perm(n);
    let mut deps: Vec<Vec<usize>> = vec![vec![]; n];
    for k in 1..n { for _ in 0..s.usize_in(0, 3) { let j = s.below(k); deps[k].push(j); } }
    let cyc = s.bool();
    if cyc { // close a loop over at least two nodes
        let len = s.usize_in(2, n.min(5));
        let pick: Vec<usize> = s.perm(n)[..len].to_vec();
        for i in 0..len { let (a, b) = (pick[i], pick[(i + 1) % len]); deps[b].push(a); }
    }
    let mut nodes: Vec<ox::NodeProto> = (0..n).map(|k| { let mut input: Vec<String> = deps[k].iter().map(|d| format!("t{d}")).collect(); if input.is_empty() { input.push("x".into()); } if s.chance(1, 4) { input.push(String::new()); } let mut output = vec![format!("t{k}")]; if s.chance(1, 5) { output.push(String::new()); } if s.chance(1, 5) { output.push(format!("u{k}")); } ox::NodeProto { op_type: Some("Concat".into()), name: Some(format!("n{k}")), input, output, ..Default::default() } }).collect();
    nodes = perm.iter().map(|k| nodes[*k].clone()).collect();
    let order: Vec<usize> = perm;
    let m = ox::ModelProto { graph: Some(ox::GraphProto { node: nodes, ..Default::default() }), ..Default::default() };
    let sc = Scratch::new("c09"); let f = sc.path("m.onnx"); write_model(&m, &f);
    s.note(|| format!("dependencies {deps:?}, file order {order:?}"));
    s.nontrivial();
    s.label(if cyc { "cyclic" } else { "acyclic" });
    let parsed = parse_onnx(&f).map_err(|e| format!("{e:#}"))?;
    match (no_panic(|| LayerGraph::from_parsed(&parsed)).map_err(|e| format!("panicked: {e}"))?, cyc) {
        (Err(_), true) => Ok(()),
        (Ok(g), true) => Err(format!("a cyclic graph is given the order {:?}", g.topo_order).into()),
        (Err(e), false) => Err(format!("an acyclic graph is refused: {e:#}").into()),
        (Ok(g), false) => {
            let mut seen = vec![false; n];
            ensure_eq!(g.topo_order.len(), n, "order length");
            for k in &g.topo_order { let id = order[*k]; ensure!(!seen[id], "node {id} appears twice in the order"); for d in &deps[id] { ensure!(seen[*d], "node {id} comes before node {d}, whose output it reads"); } seen[id] = true; }
            Ok(())
        }
    }
}

pub fn c09() -> Check {
    Check::new("C09", "exploration", "random models and random dependency graphs of 2-12 nodes (multiple edges, omitted optional inputs and outputs, cycles of length 2-5) stored in random node order; non-trivial: at least three nodes")
        .prop("layers", 80_000, 1_200_000, c09_graph)
        .prop("ordering", 120_000, 2_000_000, c09_cycles)
        .prop("operators", 20_000, 200_000, |s| {
            let all = [UNARY, BINARY, LINEAR, WINDOW, MOVE, &["Constant", "Shape", "ConstantOfShape", "Range", "ReduceMax"]].concat();
            let name: String = match s.draw(3) { 0 => s.pickc(&all).to_string(), 1 => { let mut x = s.pickc(&all).to_string(); let k = s.below(x.len()); if s.bool() { x.remove(k); } else { x.insert(k, 'x'); } x } 2 => s.pickc(&["LSTM", "GRU", "Einsum", "Loop", "If", "", "conv", "RELU", "Abs"]).to_string(), _ => s.pickc(&all).to_lowercase() };
            s.note(|| name.clone()); s.nontrivial();
            match OpType::from_str(&name) {
                Ok(o) => { let known = all.contains(&name.as_str()); ensure!(!known || format!("{o:?}") == name, "'{name}' is read as {o:?}"); ensure!(known || ["Int64", "ReLU", "LeakyReLU", "Hardswish"].iter().any(|a| name.contains(a)), "'{name}', which is no supported operator, is read as {o:?}"); }
                Err(_) => ensure!(!all.contains(&name.as_str()), "supported operator '{name}' is refused"),
            }
            Ok(())
        })
}
