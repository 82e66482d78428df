mod fields;
mod fs;
mod merkle;
mod model;
mod poly;
mod serde;
use pbt::*;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let c: Check = match id.as_str() {
        "C23" => fields::c23(),
        "C24" => fields::c24(),
        "C25" => fields::c25(),
        "C26" => fields::c26(),
        "C27" => serde::c27(),
        "C28" => poly::c28(),
        "C29" => merkle::c29(),
        "C30" => fs::c30(),
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    };
    c.main()
}
