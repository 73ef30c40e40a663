//! Stands in for serde-wasm-bindgen: values go through JSON.
use serde::ser::{self, Serialize};
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::from_str(&e.0)
    }
}
impl From<serde_json::Error> for Error {
    fn from(e: serde_json::Error) -> Error {
        Error(e.to_string())
    }
}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Error {
        Error(m.to_string())
    }
}

#[derive(Default)]
pub struct Serializer;
impl Serializer {
    pub const fn new() -> Self {
        Self
    }
    pub const fn json_compatible() -> Self {
        Self
    }
}
/// Only whole values are ever serialized; everything inside goes through
/// serde_json.
macro_rules! whole {
    ($($name:ident($t:ty)),*) => { $(fn $name(self, v: $t) -> Result<JsValue, Error> { to_value(&v) })* };
}
type Inner = serde_json::value::Serializer;
pub struct Compound<T>(T);
macro_rules! compound {
    ($($tr:ident $f:ident ($($a:ident: $t:ty),*)),*) => { $(
        impl<T: ser::$tr<Ok = serde_json::Value, Error = serde_json::Error>> ser::$tr for Compound<T> {
            type Ok = JsValue;
            type Error = Error;
            fn $f<V: ?Sized + Serialize>(&mut self, $($a: $t,)* v: &V) -> Result<(), Error> {
                Ok(self.0.$f($($a,)* v)?)
            }
            fn end(self) -> Result<JsValue, Error> {
                Ok(JsValue(self.0.end()?))
            }
        }
    )* };
}
compound!(
    SerializeSeq serialize_element(),
    SerializeTuple serialize_element(),
    SerializeTupleStruct serialize_field(),
    SerializeTupleVariant serialize_field(),
    SerializeStruct serialize_field(k: &'static str),
    SerializeStructVariant serialize_field(k: &'static str)
);
impl<T: ser::SerializeMap<Ok = serde_json::Value, Error = serde_json::Error>> ser::SerializeMap for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<V: ?Sized + Serialize>(&mut self, k: &V) -> Result<(), Error> {
        Ok(self.0.serialize_key(k)?)
    }
    fn serialize_value<V: ?Sized + Serialize>(&mut self, v: &V) -> Result<(), Error> {
        Ok(self.0.serialize_value(v)?)
    }
    fn end(self) -> Result<JsValue, Error> {
        Ok(JsValue(self.0.end()?))
    }
}
impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Compound<<Inner as ser::Serializer>::SerializeSeq>;
    type SerializeTuple = Compound<<Inner as ser::Serializer>::SerializeTuple>;
    type SerializeTupleStruct = Compound<<Inner as ser::Serializer>::SerializeTupleStruct>;
    type SerializeTupleVariant = Compound<<Inner as ser::Serializer>::SerializeTupleVariant>;
    type SerializeMap = Compound<<Inner as ser::Serializer>::SerializeMap>;
    type SerializeStruct = Compound<<Inner as ser::Serializer>::SerializeStruct>;
    type SerializeStructVariant = Compound<<Inner as ser::Serializer>::SerializeStructVariant>;
    whole!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
        serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char),
        serialize_str(&str));
    fn serialize_bytes(self, v: &[u8]) -> Result<JsValue, Error> {
        to_value(&v)
    }
    fn serialize_none(self) -> Result<JsValue, Error> {
        Ok(JsValue::UNDEFINED)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<JsValue, Error> {
        to_value(v)
    }
    fn serialize_unit(self) -> Result<JsValue, Error> {
        Ok(JsValue::UNDEFINED)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<JsValue, Error> {
        Ok(JsValue::UNDEFINED)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<JsValue, Error> {
        to_value(v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<JsValue, Error> {
        to_value(v)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, v: &'static str, x: &T) -> Result<JsValue, Error> {
        Ok(JsValue(serde_json::value::Serializer.serialize_newtype_variant(n, i, v, x)?))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self::SerializeSeq, Error> {
        Ok(Compound(serde_json::value::Serializer.serialize_seq(n)?))
    }
    fn serialize_tuple(self, n: usize) -> Result<Self::SerializeTuple, Error> {
        Ok(Compound(serde_json::value::Serializer.serialize_tuple(n)?))
    }
    fn serialize_tuple_struct(self, s: &'static str, n: usize) -> Result<Self::SerializeTupleStruct, Error> {
        Ok(Compound(serde_json::value::Serializer.serialize_tuple_struct(s, n)?))
    }
    fn serialize_tuple_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self::SerializeTupleVariant, Error> {
        Ok(Compound(serde_json::value::Serializer.serialize_tuple_variant(s, i, v, n)?))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self::SerializeMap, Error> {
        Ok(Compound(serde_json::value::Serializer.serialize_map(n)?))
    }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Self::SerializeStruct, Error> {
        Ok(Compound(serde_json::value::Serializer.serialize_struct(s, n)?))
    }
    fn serialize_struct_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self::SerializeStructVariant, Error> {
        Ok(Compound(serde_json::value::Serializer.serialize_struct_variant(s, i, v, n)?))
    }
}

pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T, Error> {
    Ok(serde_json::from_value(v.0)?)
}
pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result<JsValue, Error> {
    Ok(JsValue(serde_json::to_value(v)?))
}
