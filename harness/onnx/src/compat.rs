//! C18-C20: compatibility verdict, bias insertion, layer parameters.
use crate::load_model;
use crate::prog::*;
use crate::t::*;
use jstprove_onnx as ox;
use ox::compat::{add_zero_bias_to_conv, is_compatible};
use ox::graph::LayerNode;
use ox::layer_params::*;
use pbt::*;
use prost::Message;
use std::collections::HashSet;

pub const SUPPORTED: &[&str] = &["Add", "Cast", "Clip", "BatchNormalization", "Div", "Sub", "Mul", "Constant", "Flatten", "Gemm", "MaxPool", "Max", "Min", "Relu", "Reshape", "Conv", "Squeeze", "Unsqueeze", "Exp", "Softmax", "Sigmoid", "Gelu", "Tile", "Gather", "LayerNormalization", "Resize", "GridSample", "Transpose", "Concat", "Slice", "Shape", "Expand", "MatMul", "AveragePool", "Pad", "Split", "Where", "Pow", "Sqrt", "Tanh", "ReduceSum", "Erf", "ConvTranspose", "Log", "ReduceMean", "TopK"];
const UNSUPPORTED: &[&str] = &["LSTM", "GRU", "Einsum", "Loop", "If", "Custom", "conv", "Conv2D", "Abs", "Ceil", "NonZero", "relu", "ArgMax", "Scan", "QuantizeLinear"];

fn c18(s: &mut Src) -> R {
    let sc = Scratch::new("c18");
    let f = sc.path("m.onnx");
    let n = s.usize_in(0, 12);
    let ops: Vec<&str> = (0..n).map(|_| if s.chance(2, 3) { s.pickc(SUPPORTED) } else { s.pickc(UNSUPPORTED) }).collect();
    let node: Vec<ox::NodeProto> = ops.iter().enumerate().map(|(k, o)| ox::NodeProto { op_type: Some((*o).into()), name: s.bool().then(|| format!("n{k}")), input: vec![format!("t{k}")], output: vec![format!("t{}", k + 1)], ..Default::default() }).collect();
    let m = ox::ModelProto { ir_version: Some(8), graph: Some(ox::GraphProto { node, ..Default::default() }), ..Default::default() };
    let kind = s.weighted(&[10, 1, 1, 1]);
    let mut bytes = m.encode_to_vec();
    match kind {
        1 => { s.label("missing file"); }
        2 => { s.label("no graph"); bytes = ox::ModelProto { ir_version: Some(8), ..Default::default() }.encode_to_vec(); std::fs::write(&f, &bytes).unwrap(); }
        3 => { s.label("not a model"); let n = s.usize_in(1, 40); bytes = s.blob(n); bytes.insert(0, 0x3a); bytes.insert(1, 0xff); bytes.insert(2, 0xff); bytes.insert(3, 0x7f); std::fs::write(&f, &bytes).unwrap(); }
        _ => { std::fs::write(&f, &bytes).unwrap(); }
    }
    s.note(|| format!("operators {ops:?}"));
    if n >= 2 || kind != 0 { s.nontrivial(); }
    let (ok, list) = no_panic(|| is_compatible(&f)).map_err(|m| format!("panicked: {m}"))?.map_err(|e| format!("no verdict: {e:#}"))?;
    match kind {
        1 => ensure_eq!((ok, list), (false, vec!["FILE_NOT_FOUND".to_string()]), "verdict on a missing file"),
        2 | 3 => ensure_eq!((ok, list), (false, vec!["LOAD_ERROR".to_string()]), "verdict on an unreadable model"),
        _ => {
            let mut want: Vec<String> = vec![];
            for o in &ops { if !SUPPORTED.contains(o) && !want.contains(&o.to_string()) { want.push(o.to_string()); } }
            s.label(if want.is_empty() { "compatible" } else { "incompatible" });
            ensure_eq!(ok, want.is_empty(), "verdict on {ops:?}");
            ensure_eq!(list, want, "unsupported operators of {ops:?}");
            if ok { for o in &ops { ensure!(ox::graph::OpType::from_str(o).is_ok(), "'{o}' is reported as supported but the converter refuses it"); } }
        }
    }
    ensure!(kind == 1 || std::fs::read(&f).unwrap() == bytes, "the check changed the model file");
    Ok(())
}

pub fn c18_check() -> Check {
    Check::new("C18", "exploration", "models of 0-12 nodes mixing supported and unsupported operators with repeats, missing files, models without a graph, undecodable files; non-trivial: at least two nodes or a special file")
        .prop("verdict", 120_000, 1_500_000, c18)
        .prop("agreement", 30_000, 400_000, |s| {
            // a model judged compatible is accepted by parser and graph builder
            let mut p = Prog::new();
            let all: Vec<&'static str> = [UNARY, BINARY, LINEAR, WINDOW, MOVE].concat();
            for _ in 0..s.usize_in(1, 4) { let op = s.pickc(&all); gen_op(s, &mut p, op); }
            if p.nodes.is_empty() { return Err(Fail::Discard); }
            let m = p.encode(s, &Enc::default());
            let sc = Scratch::new("c18b"); let f = sc.path("m.onnx"); write_model(&m, &f);
            s.note(|| p.desc()); s.nontrivial();
            let (ok, list) = is_compatible(&f).map_err(|e| format!("{e:#}"))?;
            let want: HashSet<&str> = p.nodes.iter().map(|n| n.op).filter(|o| !SUPPORTED.contains(o)).collect();
            ensure_eq!(ok, want.is_empty(), "verdict");
            ensure_eq!(list.iter().map(String::as_str).collect::<HashSet<_>>(), want, "unsupported operators");
            load_model(&m)?;
            Ok(())
        })
}

fn bytes_of(dt: i32) -> Option<usize> { match dt { 1 | 6 => Some(4), 11 | 7 | 13 => Some(8), 10 | 16 => Some(2), _ => None } }

fn c19(s: &mut Src) -> R {
    let mut p = Prog::new();
    for _ in 0..s.usize_in(1, 5) { let op = if s.chance(2, 3) { "Conv" } else { s.pickc(&["Relu", "MaxPool", "ConvTranspose", "Add"]) }; gen_op(s, &mut p, op); }
    let shuffle = s.bool();
    let mut m = p.encode(s, &Enc { shuffle, symbolic: false });
    {
        let g = m.graph.as_mut().unwrap();
        // node names: missing, empty, repeated, colliding with what a bias could be called
        let style = s.draw(4);
        for (k, n) in g.node.iter_mut().enumerate() { match style { 0 => n.name = None, 1 => n.name = Some(String::new()), 2 => n.name = Some(s.pickc(&["conv", "conv_zero_bias"]).into()), 3 if k % 2 == 0 => n.name = n.output.first().cloned(), _ => {} } }
        if s.chance(1, 4) { // an existing tensor that already uses such a name
            let nm = s.pickc(&["conv_zero_bias", "_zero_bias", "conv_zero_bias_1"]);
            g.initializer.push(ox::TensorProto { name: Some(nm.into()), dims: vec![2], data_type: Some(1), float_data: vec![1.5, -2.5], ..Default::default() });
        }
        // other element types of the weights
        if s.chance(1, 4) { for i in &mut g.initializer { if i.data_type == Some(1) && s.bool() { let n: i64 = i.dims.iter().product(); let dt = s.pickc(&[10i32, 16, 11, 7, 6]); i.data_type = Some(dt); i.float_data.clear(); i.raw_data = Some(vec![0; n as usize * bytes_of(dt).unwrap()]); } } }
        m.producer_name = Some("test".into());
    }
    let sc = Scratch::new("c19"); let (f, o) = (sc.path("a.onnx"), if s.chance(1, 5) { sc.path("a.onnx") } else { sc.path("b.onnx") });
    write_model(&m, &f);
    s.note(|| p.desc());
    no_panic(|| add_zero_bias_to_conv(&f, &o)).map_err(|m| format!("panicked: {m}"))?.map_err(|e| format!("refused: {e:#}"))?;
    let r = ox::ModelProto::decode(std::fs::read(&o).unwrap().as_slice()).map_err(|e| format!("the result is no model: {e}"))?;
    let (g, h) = (m.graph.as_ref().unwrap(), r.graph.as_ref().ok_or("no graph in the result")?);
    let old = g.initializer.len();
    ensure!(h.initializer.len() >= old && h.initializer[..old] == g.initializer[..], "existing initializers changed");
    ensure_eq!(h.node.len(), g.node.len(), "number of nodes");
    let taken: HashSet<&str> = g.initializer.iter().filter_map(|i| i.name.as_deref()).chain(g.input.iter().filter_map(|i| i.name.as_deref())).chain(g.node.iter().flat_map(|n| n.output.iter().map(String::as_str))).collect();
    let mut added: HashSet<String> = HashSet::new();
    for (a, b) in g.node.iter().zip(&h.node) {
        let w = a.input.get(1).and_then(|w| g.initializer.iter().find(|i| i.name.as_deref() == Some(w)));
        if a.op_type.as_deref() == Some("Conv") && a.input.len() == 2 && w.is_some_and(|w| !w.dims.is_empty()) {
            s.nontrivial(); s.label("bias added");
            let w = w.unwrap();
            ensure_eq!(b.input.len(), 3, "inputs of a convolution without bias");
            let nm = &b.input[2];
            let c = h.initializer[old..].iter().filter(|i| i.name.as_deref() == Some(nm)).collect::<Vec<_>>();
            ensure_eq!(c.len(), 1, "definitions of the bias '{nm}'");
            ensure!(!taken.contains(nm.as_str()), "the bias name '{nm}' is already used in the model");
            ensure!(added.insert(nm.clone()), "two convolutions share the bias '{nm}'");
            let c = c[0];
            ensure_eq!(c.dims, vec![w.dims[0]], "size of the bias");
            ensure_eq!(c.data_type, w.data_type, "element type of the bias");
            let raw = c.raw_data.clone().unwrap_or_default();
            let zeros = raw.iter().all(|b| *b == 0) && c.float_data.iter().all(|x| *x == 0.0) && c.double_data.iter().all(|x| *x == 0.0) && c.int64_data.iter().all(|x| *x == 0) && c.int32_data.iter().all(|x| *x == 0);
            ensure!(zeros, "the bias is not zero");
            let n = w.dims[0] as usize;
            let stored = if raw.is_empty() { c.float_data.len() + c.double_data.len() + c.int64_data.len() + c.int32_data.len() } else { raw.len() / bytes_of(c.data_type.unwrap_or(1)).unwrap() };
            ensure!(stored == n && (raw.is_empty() || raw.len() % n == 0 && raw.len() / n == bytes_of(c.data_type.unwrap_or(1)).unwrap()), "the bias of {n} elements of type {:?} holds {} bytes", c.data_type, raw.len());
            let mut a2 = a.clone(); a2.input.push(nm.clone());
            ensure!(a2 == *b, "the convolution changed beyond its bias");
        } else { ensure!(a == b, "node {:?} changed", a.op_type); }
    }
    ensure_eq!(h.initializer.len() - old, added.len(), "number of added initializers");
    let mut r2 = r.clone(); { let h = r2.graph.as_mut().unwrap(); h.initializer.truncate(old); h.node = g.node.clone(); }
    ensure!(r2 == m, "something besides nodes and initializers changed");
    if o != f { ensure!(std::fs::read(&f).unwrap() == m.encode_to_vec(), "the source file changed"); }
    Ok(())
}

pub fn c19_check() -> Check {
    Check::new("C19", "exploration", "models with one to five nodes rich in convolutions with and without bias, node names missing, empty, repeated or colliding with bias names, weights of six element types, output over the source; non-trivial: at least one bias is inserted")
        .prop("insertion", 80_000, 1_000_000, c19)
        .prop("same_model", 30_000, 400_000, |s| {
            // conversion of the two models agrees in shapes and bit widths
            let mut p = Prog::new();
            for _ in 0..s.usize_in(1, 3) { let op = s.pickc(&["Conv", "Relu", "Conv"]); gen_op(s, &mut p, op); }
            if !p.nodes.iter().any(|n| n.op == "Conv" && n.ins.len() == 2) { return Err(Fail::Discard); }
            let m = p.encode(s, &Enc::default());
            let sc = Scratch::new("c19b"); let (f, o) = (sc.path("a.onnx"), sc.path("b.onnx")); write_model(&m, &f);
            add_zero_bias_to_conv(&f, &o).map_err(|e| format!("{e:#}"))?;
            let r = ox::ModelProto::decode(std::fs::read(&o).unwrap().as_slice()).map_err(|e| e.to_string())?;
            s.note(|| p.desc()); s.nontrivial();
            let (a, b) = (load_model(&m)?, load_model(&r)?);
            let cfg = ox::quantizer::ScaleConfig::default();
            let (sa, sb) = (ox::shape_inference::infer_all_shapes(&a.model, &a.graph).ok(), ox::shape_inference::infer_all_shapes(&b.model, &b.graph).ok());
            ensure_eq!(sa.is_some(), sb.is_some(), "shape inference succeeds");
            if let (Some(x), Some(y)) = (sa, sb) { for (k, v) in &x { ensure_eq!(y.get(k), Some(v), "shape of {k}"); } }
            let (qa, qb) = (ox::quantizer::quantize_model(a.graph, &cfg).map_err(|e| format!("{e:#}"))?, ox::quantizer::quantize_model(b.graph, &cfg).map_err(|e| format!("{e:#}"))?);
            ensure_eq!(qa.n_bits_config, qb.n_bits_config, "bit widths with a zero bias");
            for l in qb.graph.layers.iter().filter(|l| l.inputs.len() == 3) { if let Some(w) = l.weights.get(&l.inputs[2]) { if qa.graph.layers[l.id].inputs.len() == 2 { ensure!(!w.int_data.is_empty() && w.int_data.iter().all(|v| *v == 0), "quantized zero bias is {:?}", w.int_data); } } }
            Ok(())
        })
}

// ------------------------------------------------------------ C20

fn one_layer(s: &mut Src, p: &Prog, k: usize) -> Result<LayerNode, Fail> {
    let m = p.encode(s, &Enc::default());
    let l = load_model(&m)?;
    l.graph.layers.iter().find(|l| l.name == p.node_name(k)).cloned().ok_or(Fail::Discard)
}

fn c20(s: &mut Src) -> R {
    let mut p = Prog::new();
    let op = s.pickc(&["Gemm", "Conv", "MaxPool", "Add", "Sub", "BatchNormalization"]);
    gen_op(s, &mut p, op);
    let Some(k) = p.nodes.iter().position(|n| n.op == op) else { return Err(Fail::Discard) };
    let n = p.nodes[k].clone();
    let lay = one_layer(s, &p, k)?;
    s.note(|| p.desc()); s.label(op);
    let at = At(&n.attrs);
    let name = |i: usize| n.ins.get(i).copied().flatten().map(|v| p.vals[v].name.clone());
    let t = |i: usize| &p.vals[n.ins[i].unwrap()].t;
    let y = &p.vals[n.outs[0]].t;
    match op {
        "Gemm" => match (GemmParams::from_layer(&lay), at.i("transA", 0) != 0) {
            (Ok(_), true) => return Err("a transposed left operand is accepted but not represented".into()),
            (Err(_), true) => s.label("refused"),
            (Err(e), false) => return Err(format!("refused: {e:#}").into()),
            (Ok(g), false) => {
                s.nontrivial();
                ensure_eq!((&g.input_name, &g.weight_tensor_name, &g.bias_tensor_name), (&name(0).unwrap(), &name(1).unwrap(), &name(2)), "operands");
                ensure_eq!((g.w_rows, g.w_cols), (t(1).shape[0], t(1).shape[1]), "weight size");
                ensure_eq!(g.trans_b, at.i("transB", 0) != 0, "transB");
                ensure_eq!((g.k_dim, g.n_dim), (t(0).shape[1], y.shape[1]), "inner and output size");
            }
        },
        "Conv" => {
            if t(0).rank() != 4 { return Err(Fail::Discard); }
            let xs = &t(0).shape;
            let plain = at.i("group", 1) == 1 && at.is("dilations").is_none_or(|d| d.iter().all(|v| *v == 1)) && !at.s("auto_pad", "").starts_with("SAME");
            match ConvParams::from_layer(&lay, xs[1], xs[2], xs[3]) {
                Err(e) => { ensure!(!plain, "refused: {e:#}"); s.label("refused"); }
                Ok(c) => {
                    s.nontrivial();
                    ensure!(plain, "a grouped, dilated or implicitly padded convolution is accepted but not represented");
                    ensure_eq!((&c.input_name, &c.weight_tensor_name, &c.bias_tensor_name), (&name(0).unwrap(), &name(1).unwrap(), &name(2)), "operands");
                    let w = &t(1).shape;
                    ensure_eq!((c.c_out, c.c_in, c.kh, c.kw), (w[0], w[1], w[2], w[3]), "weight size");
                    ensure_eq!((c.out_h, c.out_w), (y.shape[2], y.shape[3]), "output size");
                    let st = at.is("strides").unwrap_or(vec![1, 1]);
                    let pd = if at.s("auto_pad", "") == "VALID" { vec![0; 4] } else { at.is("pads").unwrap_or(vec![0; 4]) };
                    ensure_eq!(vec![c.stride_h, c.stride_w], st.iter().map(|v| *v as usize).collect::<Vec<_>>(), "strides");
                    ensure_eq!(vec![c.pad_top, c.pad_left, c.pad_bottom, c.pad_right], pd.iter().map(|v| *v as usize).collect::<Vec<_>>(), "pads");
                    ensure_eq!((c.patch_size, c.num_patches), (w[1] * w[2] * w[3], y.shape[2] * y.shape[3]), "patch geometry");
                    // the geometry computes the convolution
                    let (x, wt) = (t(0), t(1));
                    for ix in indices(&y.shape) {
                        let (b, o, i, j) = (ix[0], ix[1], ix[2], ix[3]);
                        let mut a = n.ins.get(2).copied().flatten().map_or(0.0, |v| p.vals[v].t.v[o]);
                        for ci in 0..c.c_in { for u in 0..c.kh { for v in 0..c.kw {
                            let (r, q) = ((i * c.stride_h + u) as i64 - c.pad_top as i64, (j * c.stride_w + v) as i64 - c.pad_left as i64);
                            if r >= 0 && q >= 0 && (r as usize) < xs[2] && (q as usize) < xs[3] { a += x.at(&[b, ci, r as usize, q as usize]) * wt.at(&[o, ci, u, v]); }
                        } } }
                        ensure!((a - y.at(&ix)).abs() <= 1e-6 * (1.0 + a.abs()), "convolving with these parameters gives {a} at {ix:?}, the layer computes {}", y.at(&ix));
                    }
                }
            }
            // wrong channel count
            ensure!(ConvParams::from_layer(&lay, xs[1] + 1, xs[2], xs[3]).is_err(), "a wrong number of input channels is accepted");
        }
        "MaxPool" => {
            if t(0).rank() != 4 { ensure!(MaxPoolParams::from_layer(&lay, 3, 3).is_err(), "pooling over {} dims accepted", t(0).rank() - 2); s.label("refused"); return Ok(()); }
            let xs = &t(0).shape;
            let plain = at.is("dilations").is_none_or(|d| d.iter().all(|v| *v == 1)) && !at.s("auto_pad", "").starts_with("SAME") && (at.is("pads").is_none_or(|d| d.iter().all(|v| *v == 0))) && at.i("ceil_mode", 0) == 0;
            match MaxPoolParams::from_layer(&lay, xs[2], xs[3]) {
                Err(e) => { ensure!(!plain, "refused: {e:#}"); s.label("refused"); }
                Ok(c) => {
                    s.nontrivial();
                    let k = at.is("kernel_shape").unwrap();
                    let st = at.is("strides").unwrap_or(vec![1, 1]);
                    ensure_eq!(c.input_name, name(0).unwrap(), "operand");
                    ensure_eq!((c.pool_h, c.pool_w, c.window_size), (k[0] as usize, k[1] as usize, (k[0] * k[1]) as usize), "window");
                    ensure_eq!((c.stride_h, c.stride_w), (st[0] as usize, st[1] as usize), "strides");
                    ensure_eq!((c.pool_oh, c.pool_ow), (y.shape[2], y.shape[3]), "output size");
                    for ix in indices(&y.shape) {
                        let mut m = f64::NEG_INFINITY;
                        for u in 0..c.pool_h { for v in 0..c.pool_w { m = m.max(t(0).at(&[ix[0], ix[1], (ix[2] * c.stride_h + u).min(xs[2] - 1), (ix[3] * c.stride_w + v).min(xs[3] - 1)])); } }
                        ensure!(m == y.at(&ix), "pooling with these parameters gives {m} at {ix:?}, the layer computes {}", y.at(&ix));
                    }
                }
            }
        }
        "BatchNormalization" => {
            let q = ox::quantizer::quantize_model(load_model(&p.encode(s, &Enc::default()))?.graph, &ox::quantizer::ScaleConfig::default()).map_err(|e| format!("{e:#}"))?;
            let lay = q.graph.layers.iter().find(|l| l.name == p.node_name(k)).unwrap();
            let b = BatchNormParams::from_layer(lay).map_err(|e| format!("{e:#}"))?;
            s.nontrivial();
            ensure_eq!(b.input_name, name(0).unwrap(), "operand");
            ensure!(lay.weights.contains_key(&b.mul_tensor_name) && lay.weights.contains_key(&b.add_tensor_name) && b.mul_tensor_name != b.add_tensor_name, "factor '{}' and summand '{}'", b.mul_tensor_name, b.add_tensor_name);
            ensure_eq!((&b.mul_tensor_name, &b.add_tensor_name), (&lay.inputs[1], &lay.inputs[2]), "parameter order");
        }
        _ => {
            s.nontrivial();
            let a = AddSubParams::from_layer(&lay).map_err(|e| format!("{e:#}"))?;
            ensure_eq!((a.input_a_name, a.input_b_name), (name(0).unwrap(), name(1).unwrap()), "operands in order");
            let mut short = lay.clone(); short.inputs.truncate(1);
            ensure!(AddSubParams::from_layer(&short).is_err(), "a missing operand is accepted");
        }
    }
    Ok(())
}

pub fn c20_check() -> Check {
    Check::new("C20", "exploration", "single Gemm, Conv, MaxPool, Add, Sub and BatchNormalization layers of random size and attributes, executed with the extracted parameters; non-trivial: the parameters are extracted rather than refused")
        .prop("geometry", 120_000, 1_500_000, c20)
}
