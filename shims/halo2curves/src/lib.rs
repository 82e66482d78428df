//! Stand-in for the `halo2curves` crate, which is not available offline.
//! `Fr` is the BN254 scalar field (Montgomery form, from scratch).  The groups are an *ideal* pairing group of the same
//! prime order: an element is its discrete logarithm, and the pairing multiplies logarithms.  Every law of a bilinear
//! group holds; nothing here is hiding or binding, which does not matter for checking the code built on top.
#![allow(clippy::all)]
pub mod ff;
pub mod group;
pub mod pairing;
pub mod bn256;
pub mod msm;
pub mod serde;
mod curve;
pub use curve::*;
