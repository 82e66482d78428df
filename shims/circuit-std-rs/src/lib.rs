//! The parts of circuit-std-rs that build offline, taken from the repository's own sources.
#![allow(clippy::all, clippy::pedantic)]
#[path = "/repo/compiler/circuit-std-rs/src/traits.rs"]
pub mod traits;
pub use traits::StdCircuit;
#[path = "/repo/compiler/circuit-std-rs/src/logup.rs"]
pub mod logup;
pub use logup::{LogUpCircuit, LogUpParams};
