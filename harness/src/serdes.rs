//! Values through serde: a recording serializer, and deserializers that hand text over in every form.
use serde::de::{self, value, DeserializeOwned, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

pub const FORMS: u8 = 16;
/// forms that can carry bytes that are not UTF-8
pub const BYTE_FORMS: &[u8] = &[3, 4, 5, 7, 8];
pub const OTHERS: u8 = 10;

#[derive(Debug)]
pub struct NotText;
impl fmt::Display for NotText { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("not text") } }
impl std::error::Error for NotText {}
impl ser::Error for NotText { fn custom<T: fmt::Display>(_: T) -> Self { NotText } }
impl de::Error for NotText { fn custom<T: fmt::Display>(_: T) -> Self { NotText } }

type Impossible = ser::Impossible<Vec<u8>, NotText>;
/// Accepts a str and nothing else.
struct StrOnly { human: bool }
macro_rules! refuse { ($($f:ident($t:ty))*) => { $(fn $f(self, _: $t) -> Result<Vec<u8>, NotText> { Err(NotText) })* } }
impl ser::Serializer for StrOnly {
    type Ok = Vec<u8>;
    type Error = NotText;
    type SerializeSeq = Impossible;
    type SerializeTuple = Impossible;
    type SerializeTupleStruct = Impossible;
    type SerializeTupleVariant = Impossible;
    type SerializeMap = Impossible;
    type SerializeStruct = Impossible;
    type SerializeStructVariant = Impossible;
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_str(self, v: &str) -> Result<Vec<u8>, NotText> { Ok(v.as_bytes().to_vec()) }
    refuse! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
              serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_f32(f32)
              serialize_f64(f64) serialize_char(char) serialize_bytes(&[u8]) serialize_unit_struct(&'static str) }
    fn serialize_none(self) -> Result<Vec<u8>, NotText> { Err(NotText) }
    fn serialize_unit(self) -> Result<Vec<u8>, NotText> { Err(NotText) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Vec<u8>, NotText> { Err(NotText) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, NotText> { Err(NotText) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Vec<u8>, NotText> { Err(NotText) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, NotText> { Err(NotText) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Impossible, NotText> { Err(NotText) }
    fn serialize_tuple(self, _: usize) -> Result<Impossible, NotText> { Err(NotText) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible, NotText> { Err(NotText) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible, NotText> { Err(NotText) }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible, NotText> { Err(NotText) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible, NotText> { Err(NotText) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible, NotText> { Err(NotText) }
}

/// How a value was serialised ("str", or something else) and its content.
pub fn ser<T: Serialize>(t: &T) -> (&'static str, Vec<u8>) {
    let a = t.serialize(StrOnly { human: true });
    let b = t.serialize(StrOnly { human: false });
    match (a, b) {
        (Ok(a), Ok(b)) if a == b => {
            let text = String::from_utf8_lossy(&a).into_owned();
            match (serde_json::to_string(t), serde_json::to_string(&text), serde_json::to_value(t)) {
                (Ok(x), Ok(y), Ok(z)) if x == y && z == serde_json::Value::String(text.clone()) && key(t) == key(&text) => ("str", a),
                _ => ("other", a),
            }
        }
        (Ok(a), Ok(_)) => ("differ", a),
        _ => ("other", vec![]),
    }
}

/// As the key of a map.
fn key<T: Serialize>(t: &T) -> Option<String> {
    struct Map<'a, T>(&'a T);
    impl<T: Serialize> Serialize for Map<'_, T> {
        fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_map([(self.0, 1)]) }
    }
    serde_json::to_string(&Map(t)).ok()
}
struct Keyed<T>(T);
impl<'de, T: de::Deserialize<'de>> de::Deserialize<'de> for Keyed<T> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<T>(std::marker::PhantomData<T>);
        impl<'de, T: de::Deserialize<'de>> Visitor<'de> for V<T> {
            type Value = Keyed<T>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Keyed<T>, A::Error> {
                let (k, _) = a.next_entry::<T, u8>()?.ok_or_else(|| de::Error::custom("empty"))?;
                Ok(Keyed(k))
            }
        }
        d.deserialize_map(V(std::marker::PhantomData))
    }
}

/// A format that only knows what it is asked for, and is only asked for text.
struct Hinted<'a> { text: &'a str, owned: bool }
impl<'de> de::Deserializer<'de> for Hinted<'de> {
    type Error = value::Error;
    fn is_human_readable(&self) -> bool { false }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, value::Error> { Err(de::Error::custom("not self-describing")) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, value::Error> { v.visit_borrowed_str(self.text) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, value::Error> {
        if self.owned { v.visit_string(self.text.to_string()) } else { v.visit_str(self.text) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// Hands over an owned byte buffer.
struct ByteBuf(Vec<u8>);
impl<'de> de::Deserializer<'de> for ByteBuf {
    type Error = value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, value::Error> { v.visit_byte_buf(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

fn escaped(w: &str) -> String {
    let mut o = String::from("\"");
    for u in w.encode_utf16() { o.push_str(&format!("\\u{:04x}", u)); }
    o.push('"');
    o
}

fn de1<T: DeserializeOwned>(w: &[u8], form: u8) -> Option<T> {
    let text = std::str::from_utf8(w).ok();
    let quoted = || -> Vec<u8> {
        match text {
            Some(t) => serde_json::to_vec(t).unwrap(),
            None => { let mut v = vec![b'"']; v.extend_from_slice(w); v.push(b'"'); v }
        }
    };
    type E = value::Error;
    match form {
        0 => T::deserialize(value::BorrowedStrDeserializer::<E>::new(text?)).ok(),
        1 => T::deserialize(value::StrDeserializer::<E>::from(IntoDeserializer::into_deserializer(text?))).ok(),
        2 => { let d: value::StringDeserializer<E> = text?.to_string().into_deserializer(); T::deserialize(d).ok() }
        3 => T::deserialize(value::BorrowedBytesDeserializer::<E>::new(w)).ok(),
        4 => { let d: value::BytesDeserializer<E> = w.into_deserializer(); T::deserialize(d).ok() }
        5 => T::deserialize(ByteBuf(w.to_vec())).ok(),
        6 => serde_json::from_str(std::str::from_utf8(&quoted()).ok()?).ok(),
        7 => serde_json::from_slice(&quoted()).ok(),
        8 => serde_json::from_reader(&quoted()[..]).ok(),
        9 => serde_json::from_value(serde_json::Value::String(text?.to_string())).ok(),
        10 => serde_json::from_str(&escaped(text?)).ok(),
        12 => T::deserialize(Hinted { text: text?, owned: false }).ok(),
        13 => T::deserialize(Hinted { text: text?, owned: true }).ok(),
        14 => {
            // into a value that is there already
            let mut place: T = serde_json::from_str("\"already there\"").ok()?;
            let q = quoted();
            T::deserialize_in_place(&mut serde_json::Deserializer::from_slice(&q), &mut place).ok()?;
            Some(place)
        }
        15 => {
            let q = String::from_utf8(quoted()).ok()?;
            serde_json::from_str::<Keyed<T>>(&format!("{{{q}:1}}")).ok().map(|k| k.0)
        }
        _ => {
            // a single character where there is one
            let t = text?;
            let mut cs = t.chars();
            match (cs.next(), cs.next()) {
                (Some(c), None) => { let d: value::CharDeserializer<E> = c.into_deserializer(); T::deserialize(d).ok() }
                _ => serde_json::from_reader(escaped(t).as_bytes()).ok(),
            }
        }
    }
}

pub fn de<T: DeserializeOwned>(w: &[u8], form: u8) -> Option<T> { de1(w, form % FORMS) }

/// Does deserialising from something that is not text succeed?
pub fn de_other<T: DeserializeOwned>(form: u8) -> bool {
    type E = value::Error;
    match form % OTHERS {
        0 => T::deserialize(value::UnitDeserializer::<E>::new()).is_ok(),
        1 => { let d: value::BoolDeserializer<E> = true.into_deserializer(); T::deserialize(d).is_ok() }
        2 => { let d: value::U64Deserializer<E> = 7u64.into_deserializer(); T::deserialize(d).is_ok() }
        3 => { let d: value::I32Deserializer<E> = (-7i32).into_deserializer(); T::deserialize(d).is_ok() }
        4 => { let d: value::F64Deserializer<E> = 0.5f64.into_deserializer(); T::deserialize(d).is_ok() }
        5 => { let d: value::SeqDeserializer<_, E> = vec![97u8, 98].into_deserializer(); T::deserialize(d).is_ok() }
        6 => serde_json::from_str::<T>("null").is_ok(),
        7 => serde_json::from_str::<T>("[\"a\"]").is_ok(),
        8 => serde_json::from_str::<T>("{\"array\":\"a\",\"size\":1}").is_ok(),
        _ => serde_json::from_str::<T>("12").is_ok(),
    }
}
