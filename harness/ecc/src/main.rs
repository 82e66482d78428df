mod compile;
mod forms;
mod ir;
mod pcs;
mod snark;
use pbt::*;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let c: Check = match id.as_str() {
        "C31" => compile::c31(),
        "C32" => compile::c32(),
        "C33" => forms::c33(),
        "C34" => forms::c34(),
        "C36" => snark::c36(),
        "C37" => pcs::c37(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    };
    c.main()
}
