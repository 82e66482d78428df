mod compat;
mod front;
mod prog;
mod quant;
mod shapes;
mod t;
use jstprove_onnx as ox;
use ox::graph::LayerGraph;
use ox::parser::{parse_onnx, ParsedModel};
use pbt::*;

pub struct Loaded { pub model: ParsedModel, pub graph: LayerGraph }

/// through a file, as the converter does
pub fn load_model(m: &ox::ModelProto) -> Result<Loaded, Fail> {
    let sc = Scratch::new("onnx");
    let f = sc.path("m.onnx");
    prog::write_model(m, &f);
    let model = no_panic(|| parse_onnx(&f)).map_err(|m| format!("parser panicked: {m}"))?.map_err(|e| format!("the parser refuses a valid model: {e:#}"))?;
    let graph = no_panic(|| LayerGraph::from_parsed(&model)).map_err(|m| format!("graph construction panicked: {m}"))?.map_err(|e| format!("graph construction refuses a valid model: {e:#}"))?;
    Ok(Loaded { model, graph })
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C07" => front::c07(),
        "C08" => front::c08(),
        "C09" => front::c09(),
        "C10" => shapes::c10(),
        "C11" => shapes::c11(),
        "C12" => shapes::c12(),
        "C13" => shapes::c13(),
        "C14" => quant::c14(),
        "C15" => quant::c15(),
        "C16" => quant::c16(),
        "C17" => quant::c17(),
        "C18" => compat::c18_check(),
        "C19" => compat::c19_check(),
        "C20" => compat::c20_check(),
        "C21" => quant::c21(),
        "C22" => quant::c22(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    }
    .main()
}
