//! Stand-in for the part of `strum` the circuit crate uses (the crate is not in the offline cache).
pub trait IntoEnumIterator: Sized { type Iterator: Iterator<Item = Self>; fn iter() -> Self::Iterator; }
