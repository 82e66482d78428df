//! Stand-in for `serde_bytes` used as `#[serde(with = "serde_bytes")]` on byte vectors.
use serde::de::{Deserializer, SeqAccess, Visitor};
use serde::Serializer;
pub fn serialize<T: AsRef<[u8]> + ?Sized, S: Serializer>(b: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(b.as_ref()) }
pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
        type Value = Vec<u8>;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("byte array") }
        fn visit_bytes<E>(self, b: &[u8]) -> Result<Vec<u8>, E> { Ok(b.to_vec()) }
        fn visit_byte_buf<E>(self, b: Vec<u8>) -> Result<Vec<u8>, E> { Ok(b) }
        fn visit_str<E>(self, b: &str) -> Result<Vec<u8>, E> { Ok(b.as_bytes().to_vec()) }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> { let mut v = vec![]; while let Some(x) = a.next_element()? { v.push(x) } Ok(v) }
    }
    d.deserialize_byte_buf(V)
}
