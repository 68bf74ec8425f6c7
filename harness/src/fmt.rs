//! A minimal format for sequences, for checks of the serde implementations: a serializer which
//! records the announced length, and a deserializer which lies about it.
use serde::de::{DeserializeOwned, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{Impossible, Serialize, SerializeSeq, Serializer};
use serde_json::{Error, Value};

struct List;
struct Items {
    announced: Option<usize>,
    v: Vec<Value>,
}
type No = Impossible<(Option<usize>, Vec<Value>), Error>;
type R = Result<(Option<usize>, Vec<Value>), Error>;
fn no() -> Error {
    serde::ser::Error::custom("not a sequence")
}
impl SerializeSeq for Items {
    type Ok = (Option<usize>, Vec<Value>);
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.v.push(serde_json::to_value(x)?);
        Ok(())
    }
    fn end(self) -> R {
        Ok((self.announced, self.v))
    }
}
impl Serializer for List {
    type Ok = (Option<usize>, Vec<Value>);
    type Error = Error;
    type SerializeSeq = Items;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_seq(self, n: Option<usize>) -> Result<Items, Error> {
        Ok(Items { announced: n, v: vec![] })
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, _: bool) -> R { Err(no()) }
    fn serialize_i8(self, _: i8) -> R { Err(no()) }
    fn serialize_i16(self, _: i16) -> R { Err(no()) }
    fn serialize_i32(self, _: i32) -> R { Err(no()) }
    fn serialize_i64(self, _: i64) -> R { Err(no()) }
    fn serialize_u8(self, _: u8) -> R { Err(no()) }
    fn serialize_u16(self, _: u16) -> R { Err(no()) }
    fn serialize_u32(self, _: u32) -> R { Err(no()) }
    fn serialize_u64(self, _: u64) -> R { Err(no()) }
    fn serialize_f32(self, _: f32) -> R { Err(no()) }
    fn serialize_f64(self, _: f64) -> R { Err(no()) }
    fn serialize_char(self, _: char) -> R { Err(no()) }
    fn serialize_str(self, _: &str) -> R { Err(no()) }
    fn serialize_bytes(self, _: &[u8]) -> R { Err(no()) }
    fn serialize_none(self) -> R { Err(no()) }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> R { Err(no()) }
    fn serialize_unit(self) -> R { Err(no()) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Err(no()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R { Err(no()) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> R { x.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R { Err(no()) }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> { Err(no()) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> { Err(no()) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { Err(no()) }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Error> { Err(no()) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> { Err(no()) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { Err(no()) }
}

/// The elements of a sequence; an announced length must be right
pub fn to_list<T: Serialize>(x: &T) -> Result<Vec<Value>, String> {
    let (announced, v) = x.serialize(List).map_err(|e| e.to_string())?;
    match announced {
        Some(n) if n != v.len() => Err(format!("a sequence of {n} elements was announced, {} followed", v.len())),
        _ => Ok(v),
    }
}

struct Liar {
    v: Value,
    kind: u32,
}
struct LiarSeq {
    it: std::vec::IntoIter<Value>,
    kind: u32,
}
impl<'de> SeqAccess<'de> for LiarSeq {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.it.next().map(|v| s.deserialize(v)).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        match self.kind % 5 {
            0 => None,
            1 => Some(0),
            2 => Some(self.it.len().saturating_sub(1)),
            3 => Some(self.it.len() + 1),
            _ => Some(usize::MAX),
        }
    }
}
impl<'de> Deserializer<'de> for Liar {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.v {
            Value::Array(l) => v.visit_seq(LiarSeq { it: l.into_iter(), kind: self.kind }),
            x => x.deserialize_any(v),
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// Read a sequence whose announced length is absent or wrong
pub fn from_list<T: DeserializeOwned>(v: Value, kind: u32) -> Result<T, Error> {
    T::deserialize(Liar { v, kind })
}
