//! Stand-in for the part of rmpv the circuit crate names (type checking only for serde).
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Integer(i128);
impl Integer {
    pub fn as_i64(&self) -> Option<i64> { i64::try_from(self.0).ok() }
    pub fn as_u64(&self) -> Option<u64> { u64::try_from(self.0).ok() }
    pub fn as_f64(&self) -> Option<f64> { Some(self.0 as f64) }
}
macro_rules! fr { ($($t:ty),*) => { $(impl From<$t> for Integer { fn from(x: $t) -> Self { Integer(x as i128) } } impl From<$t> for Value { fn from(x: $t) -> Self { Value::Integer(Integer(x as i128)) } })* } }
fr!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
#[derive(Clone, Debug, PartialEq)]
pub struct Utf8String(String);
impl Utf8String { pub fn as_str(&self) -> Option<&str> { Some(&self.0) } pub fn into_str(self) -> Option<String> { Some(self.0) } pub fn is_str(&self) -> bool { true } }
impl From<&str> for Utf8String { fn from(s: &str) -> Self { Utf8String(s.to_string()) } }
impl From<String> for Utf8String { fn from(s: String) -> Self { Utf8String(s) } }
#[derive(Clone, Debug, PartialEq)]
pub enum Value { Nil, Boolean(bool), Integer(Integer), F32(f32), F64(f64), String(Utf8String), Binary(Vec<u8>), Array(Vec<Value>), Map(Vec<(Value, Value)>), Ext(i8, Vec<u8>) }
impl From<&str> for Value { fn from(s: &str) -> Self { Value::String(s.into()) } }
impl From<String> for Value { fn from(s: String) -> Self { Value::String(s.into()) } }
impl From<f64> for Value { fn from(s: f64) -> Self { Value::F64(s) } }
impl Value {
    pub fn as_i64(&self) -> Option<i64> { match self { Value::Integer(n) => n.as_i64(), _ => None } }
    pub fn as_u64(&self) -> Option<u64> { match self { Value::Integer(n) => n.as_u64(), _ => None } }
    pub fn as_f64(&self) -> Option<f64> { match self { Value::Integer(n) => n.as_f64(), Value::F32(x) => Some(*x as f64), Value::F64(x) => Some(*x), _ => None } }
    pub fn as_str(&self) -> Option<&str> { match self { Value::String(s) => s.as_str(), _ => None } }
    pub fn as_array(&self) -> Option<&Vec<Value>> { match self { Value::Array(a) => Some(a), _ => None } }
    pub fn as_map(&self) -> Option<&Vec<(Value, Value)>> { match self { Value::Map(a) => Some(a), _ => None } }
    pub fn as_bool(&self) -> Option<bool> { match self { Value::Boolean(a) => Some(*a), _ => None } }
    pub fn is_nil(&self) -> bool { matches!(self, Value::Nil) }
}
impl std::fmt::Display for Value { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
impl Serialize for Value { fn serialize<S: Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> Deserialize<'de> for Value { fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
pub mod ext {
    use super::*;
    #[derive(Debug)]
    pub enum Error { Syntax(String) }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for Error {}
    impl serde::de::Error for Error { fn custom<T: std::fmt::Display>(t: T) -> Self { Error::Syntax(t.to_string()) } }
    pub fn from_value<T: DeserializeOwned>(_v: Value) -> Result<T, Error> { unimplemented!() }
    pub fn to_value<T: Serialize>(_v: T) -> Result<Value, Error> { unimplemented!() }
}
pub mod decode { use super::Value; #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } } impl std::error::Error for Error {} pub fn read_value<R: std::io::Read>(_r: &mut R) -> Result<Value, Error> { unimplemented!() } }
