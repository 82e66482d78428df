mod fb;
mod gadgets;
mod layers;
#[path = "../../onnx/src/prog.rs"]
#[allow(dead_code)]
mod prog;
#[path = "../../onnx/src/t.rs"]
#[allow(dead_code)]
mod t;
use pbt::*;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let c: Check = match id.as_str() {
        "C38" => gadgets::c38(),
        "C39" => layers::c39(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    };
    c.main()
}
