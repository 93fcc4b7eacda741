//! C03: serialising and deserialising wall-clock times.
use crate::nd::{Choices, Nd, R};
use crate::sim::caught;
use serde::de::value::{BytesDeserializer, Error, StrDeserializer, U64Deserializer};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeStruct, Serializer};
use std::time::Duration;
use wasmtimer::std::{SystemTime, UNIX_EPOCH};

const SECS: &str = "secs_since_epoch";
const NANOS: &str = "nanos_since_epoch";

/// Keeps the fields of the struct that is serialised.
#[derive(Default)]
struct Fields {
    name: &'static str,
    declared: usize,
    fields: Vec<(&'static str, u64)>,
}

struct Int;

macro_rules! refuse {
    ($out:ty: $($f:ident $t:ty),*) => {$(
        fn $f(self, _: $t) -> Result<$out, Error> {
            Err(ser::Error::custom(stringify!($f)))
        }
    )*};
}

macro_rules! refuse_rest {
    ($out:ty) => {
        type SerializeSeq = Impossible<$out, Error>;
        type SerializeTuple = Impossible<$out, Error>;
        type SerializeTupleStruct = Impossible<$out, Error>;
        type SerializeTupleVariant = Impossible<$out, Error>;
        type SerializeMap = Impossible<$out, Error>;
        type SerializeStructVariant = Impossible<$out, Error>;
        refuse!($out: serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
            serialize_u8 u8, serialize_u16 u16, serialize_f32 f32, serialize_f64 f64, serialize_char char,
            serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
        fn collect_str<T: ?Sized + std::fmt::Display>(self, _: &T) -> Result<$out, Error> {
            Err(ser::Error::custom("str"))
        }
        fn serialize_none(self) -> Result<$out, Error> {
            Err(ser::Error::custom("none"))
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<$out, Error> {
            Err(ser::Error::custom("some"))
        }
        fn serialize_unit(self) -> Result<$out, Error> {
            Err(ser::Error::custom("unit"))
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<$out, Error> {
            Err(ser::Error::custom("unit variant"))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<$out, Error> {
            Err(ser::Error::custom("newtype"))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self, _: &'static str, _: u32, _: &'static str, _: &T,
        ) -> Result<$out, Error> {
            Err(ser::Error::custom("newtype variant"))
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> {
            Err(ser::Error::custom("seq"))
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
            Err(ser::Error::custom("tuple"))
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
            Err(ser::Error::custom("tuple struct"))
        }
        fn serialize_tuple_variant(
            self, _: &'static str, _: u32, _: &'static str, _: usize,
        ) -> Result<Self::SerializeTupleVariant, Error> {
            Err(ser::Error::custom("tuple variant"))
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
            Err(ser::Error::custom("map"))
        }
        fn serialize_struct_variant(
            self, _: &'static str, _: u32, _: &'static str, _: usize,
        ) -> Result<Self::SerializeStructVariant, Error> {
            Err(ser::Error::custom("struct variant"))
        }
    };
}

impl Serializer for Int {
    type Ok = u64;
    type Error = Error;
    type SerializeStruct = Impossible<u64, Error>;
    refuse_rest!(u64);
    fn serialize_u32(self, v: u32) -> Result<u64, Error> {
        Ok(v as u64)
    }
    fn serialize_u64(self, v: u64) -> Result<u64, Error> {
        Ok(v)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        Err(ser::Error::custom("struct"))
    }
}

struct Rec;

impl Serializer for Rec {
    type Ok = Fields;
    type Error = Error;
    type SerializeStruct = Fields;
    refuse_rest!(Fields);
    fn serialize_u32(self, _: u32) -> Result<Fields, Error> {
        Err(ser::Error::custom("u32"))
    }
    fn serialize_u64(self, _: u64) -> Result<Fields, Error> {
        Err(ser::Error::custom("u64"))
    }
    fn serialize_struct(self, name: &'static str, declared: usize) -> Result<Fields, Error> {
        Ok(Fields { name, declared, fields: Vec::new() })
    }
}

impl SerializeStruct for Fields {
    type Ok = Fields;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<(), Error> {
        let v = value.serialize(Int)?;
        self.fields.push((key, v));
        Ok(())
    }
    fn end(self) -> Result<Fields, Error> {
        Ok(self)
    }
}

/// The input of a deserialisation.
#[derive(Clone, Debug)]
enum Input {
    Map { fields: Vec<(String, u64)>, bytes: bool },
    Seq(Vec<u64>),
}

struct MapInput {
    fields: std::vec::IntoIter<(String, u64)>,
    bytes: bool,
    value: Option<u64>,
}

impl<'de> MapAccess<'de> for MapInput {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        match self.fields.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.value = Some(v);
                if self.bytes {
                    seed.deserialize(BytesDeserializer::new(k.as_bytes())).map(Some)
                } else {
                    seed.deserialize(StrDeserializer::new(&k)).map(Some)
                }
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        let v = self.value.take().ok_or_else(|| <Error as de::Error>::custom("a value without a key"))?;
        seed.deserialize(U64Deserializer::new(v))
    }
}

struct SeqInput(std::vec::IntoIter<u64>);

impl<'de> SeqAccess<'de> for SeqInput {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            None => Ok(None),
            Some(v) => seed.deserialize(U64Deserializer::new(v)).map(Some),
        }
    }
}

impl<'de> Deserializer<'de> for Input {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self {
            Input::Map { fields, bytes } => visitor.visit_map(MapInput {
                fields: fields.into_iter(),
                bytes,
                value: None,
            }),
            Input::Seq(v) => visitor.visit_seq(SeqInput(v.into_iter())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn read(input: &Input) -> R<Option<SystemTime>> {
    let r = caught(|| SystemTime::deserialize(input.clone()));
    check!(r.is_ok(), "deserialising {input:?} panics: {}", r.as_ref().err().unwrap());
    Ok(r.unwrap().ok())
}

fn millis(t: SystemTime) -> Option<u64> {
    let d = t.duration_since(UNIX_EPOCH).ok()?;
    Some(d.as_millis() as u64)
}

pub fn round_trip(nd: &mut Choices) -> R {
    // A time, written and read again.
    let bits = 1 + nd.below(53);
    let ms = nd.below(1 << bits);
    let t = UNIX_EPOCH + Duration::from_millis(ms);
    nd.note(|| format!("the time {ms} ms after the epoch"));
    let w = caught(|| t.serialize(Rec));
    check!(w.is_ok(), "serialising {ms} ms panics");
    let w = w.unwrap();
    check!(w.is_ok(), "serialising {ms} ms is an error");
    let w = w.unwrap();
    check!(
        w.fields.len() == w.declared && w.name == "SystemTime",
        "{} fields of {} announced for {}",
        w.fields.len(),
        w.declared,
        w.name
    );
    let map = |fields: Vec<(&'static str, u64)>, bytes: bool| Input::Map {
        fields: fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
        bytes,
    };
    let rev: Vec<_> = w.fields.iter().rev().cloned().collect();
    let seq = Input::Seq(w.fields.iter().map(|f| f.1).collect());
    for input in [map(w.fields.clone(), false), map(w.fields.clone(), true), map(rev.clone(), false), map(rev, true), seq] {
        let got = read(&input)?;
        check!(got.is_some(), "{input:?}, which {ms} ms was serialised to, is refused");
        let got = millis(got.unwrap());
        check!(got == Some(ms), "{input:?}, which {ms} ms was serialised to, is read as {got:?} ms");
    }
    let before = UNIX_EPOCH - Duration::from_millis(ms.max(1));
    let w = caught(|| before.serialize(Rec).is_ok());
    check!(w == Ok(false), "serialising {} ms before the epoch is not an error: {w:?}", ms.max(1));
    nd.reached();

    // Any input.
    let mut field = |nd: &mut Choices| {
        let name = match nd.below(12) {
            0..=4 => SECS.to_string(),
            5..=9 => NANOS.to_string(),
            10 => ["", "secs", "nanos", "secs_since_epoc", "nanos_since_epoch ", "Secs_since_epoch"][nd.below(6) as usize].to_string(),
            _ => SECS[..nd.below(16) as usize].to_string(),
        };
        let value = nd.u64();
        let value = match nd.below(4) {
            0 | 1 if name == NANOS => value % 5_000_000_000,
            2 => value % (1 << 33),
            3 => u64::MAX - value % 6,
            _ => value,
        };
        (name, value)
    };
    let n = nd.below(5);
    let fields: Vec<_> = (0..n).map(|_| field(nd)).collect();
    let bytes = nd.bool();
    let in_seq = nd.below(3) == 0;
    let input = if in_seq {
        Input::Seq(fields.iter().map(|f| f.1).collect())
    } else {
        Input::Map { fields: fields.clone(), bytes }
    };
    nd.note(|| format!("the input {input:?}"));
    let got = read(&input)?;
    // What it denotes, if it is well formed.
    let pair = if in_seq {
        if fields.len() < 2 {
            None
        } else {
            Some((fields[0].1, fields[1].1))
        }
    } else {
        let s: Vec<_> = fields.iter().filter(|f| f.0 == SECS).collect();
        let n: Vec<_> = fields.iter().filter(|f| f.0 == NANOS).collect();
        if fields.len() == 2 && s.len() == 1 && n.len() == 1 {
            Some((s[0].1, n[0].1))
        } else {
            None
        }
    };
    let pair = pair.filter(|p| p.1 <= u32::MAX as u64 && p.0.checked_add(p.1 / 1_000_000_000).is_some());
    match pair {
        None => check!(got.is_none(), "{input:?} is accepted"),
        // (A sequence that is too long may be refused.)
        Some((s, n)) if got.is_some() => {
            let want = s as u128 * 1000 + (n / 1_000_000) as u128;
            if want < 1 << 53 {
                let got = millis(got.unwrap());
                check!(got == Some(want as u64), "{input:?} is read as {got:?} ms, not {want}");
            } else {
                check!(millis(got.unwrap()) >= Some((1 << 53) - 1), "{input:?} is read as {:?} ms", millis(got.unwrap()));
            }
        }
        Some(_) => check!(in_seq && fields.len() > 2, "{input:?} is refused"),
    }
    Ok(())
}
