//! Stand-in for the part of `rmpv` the circuit crate uses (the crate is not in the offline cache).
use serde::de::{self, DeserializeOwned, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum N { Pos(u64), Neg(i64) }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Integer(N);
impl Integer {
    pub fn is_i64(&self) -> bool { self.as_i64().is_some() }
    pub fn is_u64(&self) -> bool { self.as_u64().is_some() }
    pub fn as_i64(&self) -> Option<i64> { match self.0 { N::Pos(u) => i64::try_from(u).ok(), N::Neg(i) => Some(i) } }
    pub fn as_u64(&self) -> Option<u64> { match self.0 { N::Pos(u) => Some(u), N::Neg(_) => None } }
    pub fn as_f64(&self) -> Option<f64> { Some(match self.0 { N::Pos(u) => u as f64, N::Neg(i) => i as f64 }) }
}
macro_rules! uint { ($($t:ty),*) => { $(impl From<$t> for Integer { fn from(x: $t) -> Self { Integer(N::Pos(x as u64)) } } impl From<$t> for Value { fn from(x: $t) -> Self { Value::Integer(x.into()) } })* } }
macro_rules! sint { ($($t:ty),*) => { $(impl From<$t> for Integer { fn from(x: $t) -> Self { Integer(if x < 0 { N::Neg(x as i64) } else { N::Pos(x as u64) }) } } impl From<$t> for Value { fn from(x: $t) -> Self { Value::Integer(x.into()) } })* } }
uint!(u8, u16, u32, u64, usize);
sint!(i8, i16, i32, i64, isize);
impl fmt::Display for Integer { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self.0 { N::Pos(u) => write!(f, "{u}"), N::Neg(i) => write!(f, "{i}") } } }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Utf8String(String);
impl Utf8String { pub fn as_str(&self) -> Option<&str> { Some(&self.0) } pub fn into_str(self) -> Option<String> { Some(self.0) } pub fn as_bytes(&self) -> &[u8] { self.0.as_bytes() } pub fn is_str(&self) -> bool { true } }
impl From<&str> for Utf8String { fn from(s: &str) -> Self { Utf8String(s.to_string()) } }
impl From<String> for Utf8String { fn from(s: String) -> Self { Utf8String(s) } }
impl fmt::Display for Utf8String { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) } }

#[derive(Clone, PartialEq, Debug)]
pub enum Value { Nil, Boolean(bool), Integer(Integer), F32(f32), F64(f64), String(Utf8String), Binary(Vec<u8>), Array(Vec<Value>), Map(Vec<(Value, Value)>), Ext(i8, Vec<u8>) }
impl Value {
    pub fn is_nil(&self) -> bool { matches!(self, Value::Nil) }
    pub fn as_bool(&self) -> Option<bool> { if let Value::Boolean(b) = self { Some(*b) } else { None } }
    pub fn as_i64(&self) -> Option<i64> { if let Value::Integer(i) = self { i.as_i64() } else { None } }
    pub fn as_u64(&self) -> Option<u64> { if let Value::Integer(i) = self { i.as_u64() } else { None } }
    pub fn as_f64(&self) -> Option<f64> { match self { Value::Integer(i) => i.as_f64(), Value::F32(x) => Some(*x as f64), Value::F64(x) => Some(*x), _ => None } }
    pub fn as_str(&self) -> Option<&str> { if let Value::String(s) = self { s.as_str() } else { None } }
    pub fn as_array(&self) -> Option<&Vec<Value>> { if let Value::Array(a) = self { Some(a) } else { None } }
    pub fn as_map(&self) -> Option<&Vec<(Value, Value)>> { if let Value::Map(a) = self { Some(a) } else { None } }
    pub fn is_array(&self) -> bool { matches!(self, Value::Array(_)) }
    pub fn is_map(&self) -> bool { matches!(self, Value::Map(_)) }
    pub fn is_number(&self) -> bool { matches!(self, Value::Integer(_) | Value::F32(_) | Value::F64(_)) }
}
impl From<bool> for Value { fn from(x: bool) -> Self { Value::Boolean(x) } }
impl From<f32> for Value { fn from(x: f32) -> Self { Value::F32(x) } }
impl From<f64> for Value { fn from(x: f64) -> Self { Value::F64(x) } }
impl From<&str> for Value { fn from(x: &str) -> Self { Value::String(x.into()) } }
impl From<String> for Value { fn from(x: String) -> Self { Value::String(x.into()) } }
impl From<Vec<Value>> for Value { fn from(x: Vec<Value>) -> Self { Value::Array(x) } }
impl fmt::Display for Value { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{self:?}") } }
impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Value::Nil => s.serialize_unit(), Value::Boolean(b) => s.serialize_bool(*b),
            Value::Integer(Integer(N::Pos(u))) => s.serialize_u64(*u), Value::Integer(Integer(N::Neg(i))) => s.serialize_i64(*i),
            Value::F32(x) => s.serialize_f32(*x), Value::F64(x) => s.serialize_f64(*x), Value::String(x) => s.serialize_str(&x.0),
            Value::Binary(b) | Value::Ext(_, b) => s.serialize_bytes(b), Value::Array(a) => s.collect_seq(a), Value::Map(m) => s.collect_map(m.iter().map(|(k, v)| (k, v))),
        }
    }
}
impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("any valid MessagePack value") }
            fn visit_unit<E>(self) -> Result<Value, E> { Ok(Value::Nil) }
            fn visit_none<E>(self) -> Result<Value, E> { Ok(Value::Nil) }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> { Value::deserialize(d) }
            fn visit_bool<E>(self, x: bool) -> Result<Value, E> { Ok(x.into()) }
            fn visit_u64<E>(self, x: u64) -> Result<Value, E> { Ok(x.into()) }
            fn visit_i64<E>(self, x: i64) -> Result<Value, E> { Ok(x.into()) }
            fn visit_f32<E>(self, x: f32) -> Result<Value, E> { Ok(x.into()) }
            fn visit_f64<E>(self, x: f64) -> Result<Value, E> { Ok(x.into()) }
            fn visit_str<E>(self, x: &str) -> Result<Value, E> { Ok(x.into()) }
            fn visit_bytes<E>(self, x: &[u8]) -> Result<Value, E> { Ok(Value::Binary(x.to_vec())) }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> { let mut v = vec![]; while let Some(x) = a.next_element()? { v.push(x) } Ok(Value::Array(v)) }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> { let mut v = vec![]; while let Some(x) = a.next_entry()? { v.push(x) } Ok(Value::Map(v)) }
        }
        d.deserialize_any(V)
    }
}
pub mod ext {
    use super::*;
    #[derive(Clone, Debug)]
    pub enum Error { Syntax(String) }
    impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let Error::Syntax(s) = self; f.write_str(s) } }
    impl std::error::Error for Error {}
    impl de::Error for Error { fn custom<T: fmt::Display>(m: T) -> Self { Error::Syntax(m.to_string()) } }
    struct De(Value);
    impl<'de> IntoDeserializer<'de, Error> for De { type Deserializer = De; fn into_deserializer(self) -> De { self } }
    pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T, Error> { T::deserialize(De(v)) }
    impl<'de> Deserializer<'de> for De {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.0 {
                Value::Nil => v.visit_unit(), Value::Boolean(b) => v.visit_bool(b),
                Value::Integer(Integer(N::Pos(u))) => v.visit_u64(u), Value::Integer(Integer(N::Neg(i))) => v.visit_i64(i),
                Value::F32(x) => v.visit_f32(x), Value::F64(x) => v.visit_f64(x), Value::String(s) => v.visit_string(s.0),
                Value::Binary(b) | Value::Ext(_, b) => v.visit_byte_buf(b),
                Value::Array(a) => { let n = a.len(); let mut d = de::value::SeqDeserializer::new(a.into_iter().map(De)); let r = v.visit_seq(&mut d)?; let left = d.end(); if left.is_err() { return Err(de::Error::invalid_length(n, &"fewer elements in array")) } Ok(r) }
                Value::Map(m) => { let mut d = de::value::MapDeserializer::new(m.into_iter().map(|(k, v)| (De(k), De(v)))); let r = v.visit_map(&mut d)?; d.end()?; Ok(r) }
            }
        }
        fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { if self.0.is_nil() { v.visit_none() } else { v.visit_some(self) } }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_newtype_struct(self) }
        fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
            match self.0 { Value::String(s) => v.visit_enum(s.0.into_deserializer()), _ => Err(de::Error::custom("unsupported enum form")) }
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
    }
}
