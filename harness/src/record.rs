//! A strict record format: what is written must be exactly the struct that was announced, field
//! names are read back as bytes.
use serde::de::value::{BytesDeserializer, Error, MapDeserializer, SeqDeserializer};
use serde::de::IntoDeserializer;
use serde::ser::{Error as _, Impossible, Serialize, SerializeStruct, Serializer};
use serde::Deserialize;
use wasmtimer::std::SystemTime;

struct Field;
struct Record;
struct Fields {
    left: usize,
    got: Vec<(&'static str, u64)>,
}

macro_rules! no {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, Error> { Err(Error::custom("unexpected type")) })* };
}
macro_rules! no_generic {
    () => {
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::custom("unexpected type"))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::custom("unexpected type"))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::custom("unexpected type"))
        }
        type SerializeSeq = Impossible<Self::Ok, Error>;
        type SerializeTuple = Impossible<Self::Ok, Error>;
        type SerializeTupleStruct = Impossible<Self::Ok, Error>;
        type SerializeTupleVariant = Impossible<Self::Ok, Error>;
        type SerializeMap = Impossible<Self::Ok, Error>;
        type SerializeStructVariant = Impossible<Self::Ok, Error>;
        no! {
            serialize_bool(bool) -> Self::Ok; serialize_i8(i8) -> Self::Ok; serialize_i16(i16) -> Self::Ok; serialize_i32(i32) -> Self::Ok; serialize_i64(i64) -> Self::Ok;
            serialize_u8(u8) -> Self::Ok; serialize_u16(u16) -> Self::Ok; serialize_f32(f32) -> Self::Ok; serialize_f64(f64) -> Self::Ok;
            serialize_char(char) -> Self::Ok; serialize_str(&str) -> Self::Ok; serialize_bytes(&[u8]) -> Self::Ok; serialize_none() -> Self::Ok; serialize_unit() -> Self::Ok;
            serialize_unit_struct(&'static str) -> Self::Ok; serialize_unit_variant(&'static str, u32, &'static str) -> Self::Ok;
            serialize_seq(Option<usize>) -> Self::SerializeSeq; serialize_tuple(usize) -> Self::SerializeTuple;
            serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
            serialize_map(Option<usize>) -> Self::SerializeMap;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
        }
    };
}

impl Serializer for Field {
    type Ok = u64;
    type Error = Error;
    type SerializeStruct = Impossible<u64, Error>;
    no_generic!();
    no! { serialize_struct(&'static str, usize) -> Self::SerializeStruct; }
    fn serialize_u32(self, v: u32) -> Result<u64, Error> {
        Ok(v as u64)
    }
    fn serialize_u64(self, v: u64) -> Result<u64, Error> {
        Ok(v)
    }
}

impl Serializer for Record {
    type Ok = Vec<(&'static str, u64)>;
    type Error = Error;
    type SerializeStruct = Fields;
    no_generic!();
    no! { serialize_u32(u32) -> Self::Ok; serialize_u64(u64) -> Self::Ok; }
    fn serialize_struct(self, _: &'static str, left: usize) -> Result<Fields, Error> {
        Ok(Fields { left, got: Vec::new() })
    }
}

impl SerializeStruct for Fields {
    type Ok = Vec<(&'static str, u64)>;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, v: &T) -> Result<(), Error> {
        if self.left == 0 || self.got.iter().any(|f| f.0 == name) {
            return Err(Error::custom("more fields than announced"));
        }
        self.left -= 1;
        self.got.push((name, v.serialize(Field)?));
        Ok(())
    }
    fn end(self) -> Result<Self::Ok, Error> {
        if self.left != 0 {
            return Err(Error::custom("fewer fields than announced"));
        }
        Ok(self.got)
    }
}

struct Name(&'static str);
impl<'de> IntoDeserializer<'de> for Name {
    type Deserializer = BytesDeserializer<'static, Error>;
    fn into_deserializer(self) -> Self::Deserializer {
        BytesDeserializer::new(self.0.as_bytes())
    }
}

/// Writes and reads `t` in each form: the fields by name, the fields swapped, a plain sequence.
/// None if it cannot be written, Some(None) if it cannot be read back.
pub fn round_trip(t: SystemTime, form: u32) -> Option<Option<SystemTime>> {
    let mut f = t.serialize(Record).ok()?;
    Some(match form {
        2 => SystemTime::deserialize(SeqDeserializer::<_, Error>::new(f.into_iter().map(|(_, v)| v))).ok(),
        _ => {
            if form == 1 {
                f.reverse();
            }
            SystemTime::deserialize(MapDeserializer::<_, Error>::new(f.into_iter().map(|(n, v)| (Name(n), v)))).ok()
        }
    })
}
