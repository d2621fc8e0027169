//! A minimal binary serde format that does not describe itself (fields by position, lengths and variants as u32).
use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub fn to_vec<T: Serialize + ?Sized>(t: &T) -> Result<Vec<u8>, E> {
    let mut w = W(vec![]);
    t.serialize(&mut w)?;
    // length and checksum in front, as an application guards such a file
    let mut v = (w.0.len() as u32).to_le_bytes().to_vec();
    v.extend((crate::rng::hash_bytes(&w.0) as u32).to_le_bytes());
    v.extend(w.0);
    Ok(v)
}
pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> Result<T, E> {
    let mut r = R(b);
    let n = r.n()? as usize;
    let sum = r.n()?;
    if n != r.0.len() || sum != crate::rng::hash_bytes(r.0) as u32 {
        return Err(E("damaged".into()));
    }
    let t = T::deserialize(&mut r)?;
    if !r.0.is_empty() {
        return Err(E("bytes left over".into()));
    }
    Ok(t)
}

struct W(Vec<u8>);
impl W {
    fn n(&mut self, n: u32) {
        self.0.extend(n.to_le_bytes());
    }
}
macro_rules! num {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<(), E> { self.0.extend(v.to_le_bytes()); Ok(()) } )* };
}
impl<'a> ser::Serializer for &'a mut W {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
         serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.n(v as u32);
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.n(v.len() as u32);
        self.0.extend(v.bytes());
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.n(v.len() as u32);
        self.0.extend(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.n(i);
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.n(i);
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        self.n(n.ok_or_else(|| E("length needed".into()))? as u32);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.n(i);
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.n(i);
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! compound {
    ($($tr:ident $f:ident),*) => { $(
        impl<'a> ser::$tr for &'a mut W {
            type Ok = ();
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
            fn end(self) -> Result<(), E> { Ok(()) }
        } )* };
}
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field,
          SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($tr:ident),*) => { $(
        impl<'a> ser::$tr for &'a mut W {
            type Ok = ();
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
            fn end(self) -> Result<(), E> { Ok(()) }
        } )* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl<'a> ser::SerializeMap for &'a mut W {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

struct R<'b>(&'b [u8]);
impl<'b> R<'b> {
    fn take(&mut self, n: usize) -> Result<&'b [u8], E> {
        if self.0.len() < n {
            return Err(E("end of data".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn n(&mut self) -> Result<u32, E> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
}
macro_rules! dnum {
    ($($f:ident $v:ident $t:ty),*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.take(std::mem::size_of::<$t>())?;
        v.$v(<$t>::from_le_bytes(b.try_into().unwrap()))
    } )* };
}
impl<'de> de::Deserializer<'de> for &mut R<'de> {
    type Error = E;
    dnum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
          deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
          deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("the format does not describe itself".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.take(1)?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(E("bool".into())),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let c = char::from_u32(self.n()?).ok_or_else(|| E("char".into()))?;
        v.visit_char(c)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()? as usize;
        let s = std::str::from_utf8(self.take(n)?).map_err(|e| E(e.to_string()))?;
        v.visit_borrowed_str(s)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()? as usize;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(E("option".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()? as usize;
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()? as usize;
        v.visit_map(Seq(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_u32(self.n()?)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
struct Seq<'a, 'de>(&'a mut R<'de>, usize);
impl<'a, 'de> SeqAccess<'de> for Seq<'a, 'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1.min(4096))
    }
}
impl<'a, 'de> MapAccess<'de> for Seq<'a, 'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(&mut *self.0)
    }
}
impl<'a, 'de> EnumAccess<'de> for &'a mut R<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), E> {
        let n = self.n()?;
        let v = s.deserialize(de::value::U32Deserializer::<E>::new(n))?;
        Ok((v, self))
    }
}
impl<'a, 'de> VariantAccess<'de> for &'a mut R<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq(self, n))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq(self, f.len()))
    }
}
