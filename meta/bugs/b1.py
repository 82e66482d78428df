IO='rust/jstprove_io/src/'; OX='rust/jstprove_onnx/src/'
BUGS=[
dict(id='io-compact-compressed',prop='C01',crate='io',needs='a compressed artifact whose type skips a field when serializing',breaks='such an artifact cannot be read back (or is read into the wrong fields)',
 edits=[(IO+'lib.rs','    let msgpack = rmp_serde::to_vec_named(value)?;\n    let (payload','    let msgpack = if compress {\n        rmp_serde::to_vec(value)?\n    } else {\n        rmp_serde::to_vec_named(value)?\n    };\n    let (payload')],
 main='''
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
struct A { #[serde(default, skip_serializing_if = "Option::is_none")] a: Option<u32>, #[serde(default)] b: Option<u32>, c: String }
fn main() {
    let v = A { a: None, b: Some(3), c: "x".into() };
    for z in [false, true] {
        let b = jstprove_io::serialize_to_bytes(&v, z).unwrap();
        let r: A = jstprove_io::deserialize_from_bytes(&b).expect("read back");
        assert_eq!(r, v);
    }
}'''),
dict(id='io-header-endianness',prop='C02',crate='io',needs='a compressed artifact exchanged with another implementation of the envelope',breaks='the flags word is written and read big-endian, so artifacts differ from the documented layout',
 edits=[(IO+'envelope.rs','out.extend_from_slice(&flags.to_le_bytes());','out.extend_from_slice(&flags.to_be_bytes());'),(IO+'envelope.rs','u32::from_le_bytes(buf[4..8].try_into().unwrap())','u32::from_be_bytes(buf[4..8].try_into().unwrap())')],
 main='''
fn main() {
    let b = jstprove_io::serialize_to_bytes(&vec![1u8; 100], true).unwrap();
    assert_eq!(&b[..4], b"JST\\x01");
    assert_eq!(u32::from_le_bytes(b[4..8].try_into().unwrap()), 1);
}'''),
dict(id='io-crc-skipped-zstd-file',prop='C03',crate='io',needs='a compressed artifact file damaged so that it still decompresses',breaks='the checksum of compressed files is not compared',
 edits=[(IO+'lib.rs','            envelope::verify_crc_computed(crc_state.get(), header.crc32)?;\n            Ok(result)','            if !header.compressed {\n                envelope::verify_crc_computed(crc_state.get(), header.crc32)?;\n            }\n            Ok(result)')],
 main='''
fn main() {
    let mut b = jstprove_io::serialize_to_bytes(&"some text that does not compress 0192837465".to_string(), true).unwrap();
    b[17] ^= 1;
    let p = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).join("a");
    std::fs::write(&p, &b).unwrap();
    assert!(jstprove_io::deserialize_from_file::<String>(&p).is_err(), "damaged file accepted");
}'''),
dict(id='io-empty-vk-lost',prop='C04',crate='io',needs='a bundle written with an empty verifying key',breaks='the key is not stored and reads back as absent',
 edits=[(IO+'bundle.rs','    if let Some(vk_bytes) = vk {','    if let Some(vk_bytes) = vk.filter(|bytes| !bytes.is_empty()) {')],
 main='''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).join("b");
    jstprove_io::bundle::write_bundle_with_vk::<u8>(&d, b"c", b"w", Some(b""), None, None, true).unwrap();
    assert!(jstprove_io::bundle::bundle_has_vk(&d));
    assert_eq!(jstprove_io::bundle::read_bundle::<u8>(&d).unwrap().vk, Some(vec![]));
}'''),
dict(id='io-cleanup-order',prop='C05',crate='io',needs='a bundle write that fails after its directory was created',breaks='the directory is removed before its files and therefore stays behind',
 edits=[(IO+'bundle.rs','            for p in self.paths.iter().rev() {','            for p in &self.paths {')],
 main='''
struct Bad;
impl serde::Serialize for Bad { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("no")) } }
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).join("b");
    assert!(jstprove_io::bundle::write_bundle(&d, b"c", b"w", Some(Bad), None, false).is_err());
    assert!(!d.exists(), "left behind");
}'''),
dict(id='onnx-int32-unsigned',prop='C07',crate='onnx',needs='an int32 tensor stored as raw data that contains a negative value',breaks='negative raw int32 values become large positive ones',
 edits=[(OX+'parser.rs','int_data.push(i32::from_le_bytes(chunk.try_into().unwrap()) as i64);','int_data.push(i64::from(u32::from_le_bytes(chunk.try_into().unwrap())));')],
 main='''
fn main() {
    let mut t = it("w", &[2], &[]); t.data_type = Some(6); t.raw_data = Some([(-1i32).to_le_bytes(), 5i32.to_le_bytes()].concat());
    let m = model(vec![node("Add", "a", &["x", "w"], &["y"], vec![])], vec![t], vec![vi("x", &[2])], vec![vi("y", &[2])]);
    assert_eq!(parsed(&m).initializers["w"].int_data, vec![-1, 5]);
}'''),
dict(id='onnx-topo-dup-edges',prop='C09',crate='onnx',needs='a layer that uses the same tensor twice and another produced later in the file',breaks='a layer is ordered before one of its producers',
 edits=[(OX+'graph.rs','                    in_degree[idx] += 1;\n                }\n            }\n        }\n    }','                }\n            }\n        }\n    }\n    for next in adj.iter().flat_map(|targets| targets.iter().copied().collect::<std::collections::HashSet<_>>()) {\n        in_degree[next] += 1;\n    }'),
        (OX+'graph.rs','            in_degree[next] -= 1;\n            if in_degree[next] == 0 {','            in_degree[next] = in_degree[next].saturating_sub(1);\n            if in_degree[next] == 0 && !order.contains(&next) && !queue.contains(&next) {')],
 main='''
fn main() {
    let m = model(vec![node("Mul", "m", &["a", "a"], &["p"], vec![]), node("Add", "s", &["p", "b"], &["y"], vec![]), node("Relu", "ra", &["x"], &["a"], vec![]), node("Relu", "rb", &["a2"], &["b"], vec![]), node("Relu", "ra2", &["a1"], &["a2"], vec![]), node("Relu", "ra1", &["a"], &["a1"], vec![]), node("Sub", "q", &["a", "a"], &["q0"], vec![]), node("Add", "z", &["q0", "b"], &["zz"], vec![]), node("Max", "t", &["a", "a", "b"], &["tt"], vec![])], vec![], vec![vi("x", &[2])], vec![vi("y", &[2])]);
    let g = LayerGraph::from_parsed(&parsed(&m)).unwrap();
    let mut have: std::collections::HashSet<String> = ["x".to_string()].into();
    for l in g.iter_topo() { for i in &l.inputs { assert!(have.contains(i), "{} before {i}", l.name); } have.extend(l.outputs.iter().cloned()); }
}'''),
dict(id='onnx-pool-floor-ceil',prop='C11',crate='onnx',needs='asymmetric padding on a strided pooling layer',breaks='end padding is taken from the begin entries',
 edits=[(OX+'shape_inference.rs','        let in_dim = input_shape[2 + i];\n        let pad = pads[i] + pads[spatial_dims + i];\n        let padded = in_dim + pad;\n        if strides[i] == 0 {\n            bail!(\n                "layer {}: MaxPool','        let in_dim = input_shape[2 + i];\n        let pad = pads[2 * i] + pads[2 * i + 1];\n        let padded = in_dim + pad;\n        if strides[i] == 0 {\n            bail!(\n                "layer {}: MaxPool')],
 main='''
fn main() {
    let m = model(vec![node("MaxPool", "p", &["x"], &["y"], vec![ais("kernel_shape", &[2, 2]), ais("pads", &[1, 0, 1, 0])])], vec![], vec![vi("x", &[1, 1, 6, 6])], vec![vi("y", &[1, 1, 7, 5])]);
    assert_eq!(shapes(&m)["y"], vec![1, 1, 7, 5]);
}'''),
dict(id='onnx-slice-neg-step-len',prop='C12',crate='onnx',needs='a Slice whose step does not divide the sliced length',breaks='the last partial step is dropped from the inferred shape',
 edits=[(OX+'shape_inference.rs','            (end - start).div_ceil(step)\n        } else {\n            0\n        };\n    }\n\n    Ok(layer','            ((end - start) / step).max(1)\n        } else {\n            0\n        };\n    }\n\n    Ok(layer')],
 main='''
fn main() {
    let m = model(vec![node("Slice", "s", &["x", "b", "e", "a", "t"], &["y"], vec![])], vec![it("b", &[1], &[0]), it("e", &[1], &[5]), it("a", &[1], &[1]), it("t", &[1], &[2])], vec![vi("x", &[1, 5])], vec![vi("y", &[1, 3])]);
    assert_eq!(shapes(&m)["y"], vec![1, 3]);
}'''),
dict(id='onnx-fold-shape-end',prop='C13',crate='onnx',needs='a Shape node with a negative end attribute feeding a Reshape',breaks='a negative end is treated as inclusive when the shape is folded',
 edits=[(OX+'shape_inference.rs','    let end = if end_raw < 0 {\n        (rank + end_raw).max(0) as usize\n    } else {\n        (end_raw as usize).min(input_shape.len())\n    };\n\n    let dims','    let end = if end_raw < 0 {\n        (rank + end_raw + 1).max(0) as usize\n    } else {\n        (end_raw as usize).min(input_shape.len())\n    };\n\n    let dims')],
 main='''
fn main() {
    let m = model(vec![node("Shape", "s", &["x"], &["h"], vec![ai("end", -1)]), node("Concat", "c", &["h", "m1", "one"], &["t"], vec![ai("axis", 0)]), node("Reshape", "r", &["x", "t"], &["y"], vec![])], vec![it("m1", &[1], &[-1]), it("one", &[1], &[1])], vec![vi("x", &[2, 3, 4])], vec![vi("y", &[2, 3, 4, 1])]);
    assert_eq!(shapes(&m)["y"], vec![2, 3, 4, 1]);
}'''),
dict(id='onnx-weight-truncate-large',prop='C14',crate='onnx',needs='a negative weight whose scaled value lies exactly between two integers or beyond them by more than half',breaks='weights are rounded half up instead of to the nearest integer, off by one for some negative values',
 edits=[(OX+'quantizer.rs','.map(|v| (*v * factor as f64).round() as i64)','.map(|v| (*v * factor as f64 + 0.5).trunc() as i64)')],
 main='''
fn main() {
    let w = [-0.3f32, -1.0, -0.00001, 0.7];
    let m = model(vec![node("MatMul", "m", &["x", "w"], &["y"], vec![])], vec![ft("w", &[4, 1], &w)], vec![vi("x", &[1, 4])], vec![vi("y", &[1, 1])]);
    let q = quant(&m);
    let exp: Vec<i64> = w.iter().map(|v| (*v as f64 * 262144.0).round() as i64).collect();
    assert_eq!(layer(&q, "m").weights["w"].int_data, exp);
}'''),
dict(id='onnx-gemm-bound-rows',prop='C15',crate='onnx',needs='a Gemm with transB=0 and a non-square weight whose columns sum to more than its rows',breaks='the accumulated magnitude, and with it the bit width of the next range check, is too small',
 edits=[(OX+'quantizer.rs','                    (0..cols)\n                        .map(|c| (0..rows).map(|r| vals[r * cols + c].abs()).sum::<f64>())','                    vals.chunks(cols)\n                        .map(|row| row.iter().map(|v| v.abs()).sum::<f64>())')],
 main='''
fn main() {
    let k = 64; let w = vec![1.0f32; k];
    let m = model(vec![node("Gemm", "g", &["x", "w", "b"], &["h"], vec![]), node("Relu", "r", &["h"], &["y"], vec![])], vec![ft("w", &[k as i64, 1], &w), ft("b", &[1], &[0.0])], vec![vi("x", &[1, k as i64])], vec![vi("y", &[1, 1])]);
    let q = quant(&m);
    let n = layer(&q, "r").n_bits.unwrap();
    assert!(n >= 18 + 6 + 1, "Relu of a sum of 64 terms has only {n} bits");
}'''),
dict(id='onnx-safe-exponent-round',prop='C16',crate='onnx',needs='a model whose largest accumulation is just above a power of two',breaks='the scale exponent is one too large for the field',
 edits=[(OX+'quantizer.rs','            max_bound.log2().ceil() as u32','            max_bound.log2().round() as u32')],
 main='''
fn main() {
    for (n, b) in [(64u32, 9.0f64), (63, 33.0), (62, 5.0), (31, 1.2), (64, 1.2)] {
        let e = ScaleConfig::max_safe_exponent(n, b);
        let need = 2.0 * e as f64 + b.log2() + 1.0;
        assert!(need <= n as f64 + 1e-9, "exponent {e} needs {need} bits of {n}");
    }
}'''),
dict(id='onnx-pow-half-vector',prop='C17',crate='onnx',needs='Pow whose exponent tensor has several entries, the first of them 0.5',breaks='a mixed power is replaced by a square root',
 edits=[(OX+'quantizer.rs','vals.len() == 1 && (vals[0] - 0.5).abs() < 1e-9','vals.first().is_some_and(|e| (e - 0.5).abs() < 1e-9)')],
 main='''
fn main() {
    let m = model(vec![node("Pow", "p", &["x", "e"], &["y"], vec![])], vec![ft("e", &[2], &[0.5, 2.0])], vec![vi("x", &[1, 2])], vec![vi("y", &[1, 2])]);
    if let Ok(q) = quantize_model(LayerGraph::from_parsed(&parsed(&m)).unwrap(), &ScaleConfig::default()) {
        assert_eq!(layer(&q, "p").op_type, OpType::Pow);
    }
}'''),
dict(id='onnx-compat-function-domain',prop='C18',crate='onnx',needs='a model in which an unsupported operator follows another unsupported one',breaks='only operators differing from the previous unsupported one are compared, repeated names are listed twice',
 edits=[(OX+'compat.rs','if !unsupported.contains(&op.to_string()) {','if unsupported.last().map(String::as_str) != Some(op) {')],
 main='''
fn main() {
    let m = model(vec![node("LSTM", "a", &["x"], &["p"], vec![]), node("GRU", "b", &["p"], &["q"], vec![]), node("LSTM", "c", &["q"], &["y"], vec![])], vec![], vec![vi("x", &[2])], vec![vi("y", &[2])]);
    let (ok, bad) = ox::compat::is_compatible(&file(&m, "m.onnx")).unwrap();
    assert!(!ok);
    assert_eq!(bad, vec!["LSTM", "GRU"]);
}'''),
dict(id='onnx-bias-optional-empty',prop='C19',crate='onnx',needs='a Conv whose weight comes from a node, next to one whose weight is an initializer',breaks='conversion stops at the first Conv without an initializer weight, later Convs get no bias',
 edits=[(OX+'compat.rs','            None => continue,\n        };','            None => break,\n        };')],
 main='''
fn main() {
    let m = model(vec![node("Constant", "k", &[], &["w0"], vec![at("value", ft("", &[1, 1, 1, 1], &[1.0]))]), node("Conv", "a", &["x", "w0"], &["p"], vec![]), node("Conv", "b", &["p", "w1"], &["y"], vec![])], vec![ft("w1", &[1, 1, 1, 1], &[1.0])], vec![vi("x", &[1, 1, 2, 2])], vec![vi("y", &[1, 1, 2, 2])]);
    let i = file(&m, "m.onnx"); let o = i.with_file_name("o.onnx");
    ox::compat::add_zero_bias_to_conv(&i, &o).unwrap();
    let g = ox::ModelProto::decode(std::fs::read(&o).unwrap().as_slice()).unwrap().graph.unwrap();
    assert_eq!(g.node[2].input.len(), 3);
}'''),
dict(id='onnx-conv-pads-order',prop='C20',crate='onnx',needs='a Conv with pads that differ between sides',breaks='pads are taken as begin/end pairs per axis',
 edits=[(OX+'layer_params.rs','        let [pad_top, pad_left, pad_bottom, pad_right] = pad_values.map(|v| v as usize);\n\n        let strides = layer.get_ints_attr("strides");\n        let raw_stride_h = strides.and_then(|s| s.first().copied()).unwrap_or(1);','        let [pad_top, pad_bottom, pad_left, pad_right] = pad_values.map(|v| v as usize);\n\n        let strides = layer.get_ints_attr("strides");\n        let raw_stride_h = strides.and_then(|s| s.first().copied()).unwrap_or(1);')],
 main='''
fn main() {
    let m = model(vec![node("Conv", "c", &["x", "w", "b"], &["y"], vec![ais("pads", &[1, 0, 1, 0])])], vec![ft("w", &[1, 1, 2, 2], &[1.0; 4]), ft("b", &[1], &[0.0])], vec![vi("x", &[1, 1, 4, 4])], vec![vi("y", &[1, 1, 5, 3])]);
    let g = LayerGraph::from_parsed(&parsed(&m)).unwrap();
    let p = ox::layer_params::ConvParams::from_layer(&g.layers[0], 1, 4, 4).unwrap();
    assert_eq!((p.out_h, p.out_w, p.pad_left, p.pad_bottom), (5, 3, 0, 1));
}'''),
]
