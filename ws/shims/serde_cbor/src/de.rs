use crate::{value::Value, Error, Result};
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::*;
use serde::forward_to_deserialize_any;
use std::collections::BTreeMap;

pub struct Reader<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
fn f16(b: u16) -> f64 {
    let (s, e, m) = (if b >> 15 == 1 { -1f64 } else { 1f64 }, (b >> 10 & 31) as i32, (b & 0x3ff) as f64);
    s * match e { 0 => m * 2f64.powi(-24), 31 => if m == 0.0 { f64::INFINITY } else { f64::NAN }, _ => (m + 1024.0) * 2f64.powi(e - 25) }
}
impl Reader<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8]> {
        if self.b.len() - self.i < n {
            return Err(Error(format!("EOF while parsing a value at offset {}", self.i)));
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn num(&mut self, info: u8) -> Result<u64> {
        Ok(match info {
            0..=23 => info.into(),
            24 => self.take(1)?[0].into(),
            25 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()).into(),
            26 => u32::from_be_bytes(self.take(4)?.try_into().unwrap()).into(),
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            _ => return Err(Error(format!("unassigned type at offset {}", self.i))),
        })
    }
    fn raw(&mut self, major: u8, info: u8) -> Result<Vec<u8>> {
        if info != 31 {
            let n = usize::try_from(self.num(info)?).map_err(|_| Error("length".into()))?;
            return Ok(self.take(n)?.to_vec());
        }
        let mut v = vec![];
        loop {
            let b = self.take(1)?[0];
            if b == 0xff {
                return Ok(v);
            }
            if b >> 5 != major || b & 31 == 31 {
                return Err(Error(format!("unexpected code at offset {}", self.i)));
            }
            v.extend(self.raw(major, b & 31)?);
        }
    }
    fn brk(&mut self) -> bool {
        let b = self.b.get(self.i) == Some(&0xff);
        self.i += b as usize;
        b
    }
    pub fn value(&mut self, depth: usize) -> Result<Value> {
        if depth == 0 {
            return Err(Error("recursion limit exceeded".into()));
        }
        let b = self.take(1)?[0];
        let (major, info) = (b >> 5, b & 31);
        Ok(match major {
            0 => Value::Integer(self.num(info)?.into()),
            1 => Value::Integer(-1 - i128::from(self.num(info)?)),
            2 => Value::Bytes(self.raw(2, info)?),
            3 => Value::Text(String::from_utf8(self.raw(3, info)?).map_err(|_| Error("invalid UTF-8".into()))?),
            4 => {
                let n = if info == 31 { None } else { Some(self.num(info)?) };
                let mut v = vec![];
                while n != Some(v.len() as u64) {
                    if n.is_none() && self.brk() {
                        break;
                    }
                    v.push(self.value(depth - 1)?);
                }
                Value::Array(v)
            }
            5 => {
                let n = if info == 31 { None } else { Some(self.num(info)?) };
                let mut m = BTreeMap::new();
                let mut i = 0;
                while n != Some(i) {
                    if n.is_none() && self.brk() {
                        break;
                    }
                    i += 1;
                    let k = self.value(depth - 1)?;
                    let v = self.value(depth - 1)?;
                    m.insert(k, v);
                }
                Value::Map(m)
            }
            6 => {
                self.num(info)?;
                self.value(depth - 1)?
            }
            _ => match info {
                20 => Value::Bool(false),
                21 => Value::Bool(true),
                22 | 23 => Value::Null,
                25 => Value::Float(f16(self.num(25)? as u16)),
                26 => Value::Float(f32::from_bits(self.num(26)? as u32).into()),
                27 => Value::Float(f64::from_bits(self.num(27)?)),
                31 => return Err(Error(format!("unexpected code at offset {}", self.i))),
                _ => return Err(Error(format!("unassigned type at offset {}", self.i))),
            },
        })
    }
}
struct V;
impl<'de> Visitor<'de> for V {
    type Value = Value;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("any valid CBOR value")
    }
    fn visit_bool<E>(self, x: bool) -> std::result::Result<Value, E> { Ok(Value::Bool(x)) }
    fn visit_i64<E>(self, x: i64) -> std::result::Result<Value, E> { Ok(Value::Integer(x.into())) }
    fn visit_u64<E>(self, x: u64) -> std::result::Result<Value, E> { Ok(Value::Integer(x.into())) }
    fn visit_i128<E>(self, x: i128) -> std::result::Result<Value, E> { Ok(Value::Integer(x)) }
    fn visit_f64<E>(self, x: f64) -> std::result::Result<Value, E> { Ok(Value::Float(x)) }
    fn visit_str<E>(self, x: &str) -> std::result::Result<Value, E> { Ok(Value::Text(x.into())) }
    fn visit_string<E>(self, x: String) -> std::result::Result<Value, E> { Ok(Value::Text(x)) }
    fn visit_bytes<E>(self, x: &[u8]) -> std::result::Result<Value, E> { Ok(Value::Bytes(x.into())) }
    fn visit_byte_buf<E>(self, x: Vec<u8>) -> std::result::Result<Value, E> { Ok(Value::Bytes(x)) }
    fn visit_none<E>(self) -> std::result::Result<Value, E> { Ok(Value::Null) }
    fn visit_unit<E>(self) -> std::result::Result<Value, E> { Ok(Value::Null) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> std::result::Result<Value, D::Error> { Value::deserialize(d) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> std::result::Result<Value, D::Error> { Value::deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> std::result::Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? { v.push(x) }
        Ok(Value::Array(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> std::result::Result<Value, A::Error> {
        let mut v = BTreeMap::new();
        while let Some((k, x)) = a.next_entry()? { v.insert(k, x); }
        Ok(Value::Map(v))
    }
}
impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        d.deserialize_any(V)
    }
}
impl IntoDeserializer<'_, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value { self }
}
struct En(String, Option<Value>);
impl<'de> EnumAccess<'de> for En {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self)> {
        Ok((s.deserialize(Value::Text(self.0.clone()))?, self))
    }
}
impl<'de> VariantAccess<'de> for En {
    type Error = Error;
    fn unit_variant(self) -> Result<()> { match self.1 { None => Ok(()), _ => Err(Error("unit variant".into())) } }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value> { s.deserialize(self.1.ok_or(Error("newtype variant".into()))?) }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, v: W) -> Result<W::Value> { self.1.ok_or(Error("tuple variant".into()))?.deserialize_any(v) }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], v: W) -> Result<W::Value> { self.1.ok_or(Error("struct variant".into()))?.deserialize_any(v) }
}
impl<'de> Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value> {
        match self {
            Value::Null => v.visit_unit(),
            Value::Bool(x) => v.visit_bool(x),
            Value::Integer(x) => if let Ok(x) = u64::try_from(x) { v.visit_u64(x) } else if let Ok(x) = i64::try_from(x) { v.visit_i64(x) } else { v.visit_i128(x) },
            Value::Float(x) => v.visit_f64(x),
            Value::Bytes(x) => v.visit_byte_buf(x),
            Value::Text(x) => v.visit_string(x),
            Value::Array(x) => {
                let mut d = SeqDeserializer::new(x.into_iter());
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Map(x) => {
                let mut d = MapDeserializer::new(x.into_iter());
                let r = v.visit_map(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Tag(_, x) => x.deserialize_any(v),
            Value::__Hidden => unreachable!(),
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, v: W) -> Result<W::Value> {
        match self { Value::Null => v.visit_none(), x => v.visit_some(x) }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value> { v.visit_newtype_struct(self) }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value> {
        match self {
            Value::Text(t) => v.visit_enum(En(t, None)),
            Value::Map(m) if m.len() == 1 => match m.into_iter().next() {
                Some((Value::Text(t), x)) => v.visit_enum(En(t, Some(x))),
                _ => Err(Error("enum".into())),
            },
            _ => Err(Error("invalid type: expected enum".into())),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
