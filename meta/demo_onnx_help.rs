#![allow(dead_code, unused_imports)]
use jstprove_onnx::{self as ox, graph::*, parser::*, quantizer::*, shape_inference::*};
use prost::Message;
fn vi(name: &str, dims: &[i64]) -> ox::ValueInfoProto {
    let d = dims.iter().map(|v| ox::tensor_shape_proto::Dimension { value: Some(ox::tensor_shape_proto::dimension::Value::DimValue(*v)), ..Default::default() }).collect();
    let tt = ox::type_proto::Tensor { elem_type: Some(1), shape: Some(ox::TensorShapeProto { dim: d }) };
    ox::ValueInfoProto { name: Some(name.into()), r#type: Some(ox::TypeProto { value: Some(ox::type_proto::Value::TensorType(tt)), ..Default::default() }), ..Default::default() }
}
fn ft(name: &str, dims: &[i64], v: &[f32]) -> ox::TensorProto { ox::TensorProto { name: Some(name.into()), dims: dims.to_vec(), data_type: Some(1), float_data: v.to_vec(), ..Default::default() } }
fn it(name: &str, dims: &[i64], v: &[i64]) -> ox::TensorProto { ox::TensorProto { name: Some(name.into()), dims: dims.to_vec(), data_type: Some(7), int64_data: v.to_vec(), ..Default::default() } }
fn ai(name: &str, v: i64) -> ox::AttributeProto { ox::AttributeProto { name: Some(name.into()), i: Some(v), r#type: Some(2), ..Default::default() } }
fn af(name: &str, v: f32) -> ox::AttributeProto { ox::AttributeProto { name: Some(name.into()), f: Some(v), r#type: Some(1), ..Default::default() } }
fn ais(name: &str, v: &[i64]) -> ox::AttributeProto { ox::AttributeProto { name: Some(name.into()), ints: v.to_vec(), r#type: Some(7), ..Default::default() } }
fn at(name: &str, t: ox::TensorProto) -> ox::AttributeProto { ox::AttributeProto { name: Some(name.into()), t: Some(t), r#type: Some(4), ..Default::default() } }
fn node(op: &str, name: &str, ins: &[&str], outs: &[&str], attrs: Vec<ox::AttributeProto>) -> ox::NodeProto {
    ox::NodeProto { op_type: Some(op.into()), name: Some(name.into()), input: ins.iter().map(|s| s.to_string()).collect(), output: outs.iter().map(|s| s.to_string()).collect(), attribute: attrs, ..Default::default() }
}
fn model(nodes: Vec<ox::NodeProto>, inits: Vec<ox::TensorProto>, ins: Vec<ox::ValueInfoProto>, outs: Vec<ox::ValueInfoProto>) -> ox::ModelProto {
    ox::ModelProto { ir_version: Some(8), opset_import: vec![ox::OperatorSetIdProto { domain: Some(String::new()), version: Some(17) }],
        graph: Some(ox::GraphProto { name: Some("g".into()), node: nodes, initializer: inits, input: ins, output: outs, ..Default::default() }), ..Default::default() }
}
fn file(m: &ox::ModelProto, name: &str) -> std::path::PathBuf {
    let p = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).join(name);
    std::fs::write(&p, m.encode_to_vec()).unwrap();
    p
}
fn parsed(m: &ox::ModelProto) -> ParsedModel { parse_onnx(&file(m, "m.onnx")).unwrap() }
fn shapes(m: &ox::ModelProto) -> std::collections::HashMap<String, Vec<usize>> { let p = parsed(m); let g = LayerGraph::from_parsed(&p).unwrap(); infer_all_shapes(&p, &g).unwrap() }
fn quant(m: &ox::ModelProto) -> QuantizedModel { quantize_model(LayerGraph::from_parsed(&parsed(m)).unwrap(), &ScaleConfig::default()).unwrap() }
fn layer<'a>(q: &'a QuantizedModel, name: &str) -> &'a LayerNode { q.graph.layers.iter().find(|l| l.name == name).unwrap() }
