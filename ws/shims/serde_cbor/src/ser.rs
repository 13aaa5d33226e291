use crate::{value::Value, Error, Result};
use serde::ser::*;
use std::collections::BTreeMap;

fn head(o: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 { o.push(m | n as u8) }
    else if n <= 0xff { o.extend([m | 24, n as u8]) }
    else if n <= 0xffff { o.push(m | 25); o.extend((n as u16).to_be_bytes()) }
    else if n <= 0xffff_ffff { o.push(m | 26); o.extend((n as u32).to_be_bytes()) }
    else { o.push(m | 27); o.extend(n.to_be_bytes()) }
}
/// The half precision float equal to `x`, if there is one.
fn half(x: f32) -> Option<u16> {
    for b in [x.is_sign_negative()] {
        let s = (b as u16) << 15;
        let a = x.abs();
        if a == 0.0 { return Some(s) }
        let e = a.log2().floor() as i32;
        for e in [e - 1, e, e + 1] {
            if e > 15 || e < -25 { continue }
            let (bits, ok) = if e < -14 {
                let m = a / 2f32.powi(-24);
                (m as u16, m.fract() == 0.0 && m < 1024.0)
            } else {
                let m = a / 2f32.powi(e - 10) - 1024.0;
                (((e + 15) as u16) << 10 | m as u16, m.fract() == 0.0 && (0.0..1024.0).contains(&m))
            };
            if ok { return Some(s | bits) }
        }
    }
    None
}
fn put(o: &mut Vec<u8>, v: &Value) -> Result<()> {
    match v {
        Value::Null => o.push(0xf6),
        Value::Bool(b) => o.push(0xf4 + *b as u8),
        Value::Integer(n) => {
            if *n >= 0 {
                head(o, 0, u64::try_from(*n).map_err(|_| Error("The number can't be stored in CBOR".into()))?)
            } else {
                head(o, 1, u64::try_from(-1 - *n).map_err(|_| Error("The number can't be stored in CBOR".into()))?)
            }
        }
        Value::Float(x) => {
            let y = *x as f32;
            if x.is_nan() { o.extend([0xf9, 0x7e, 0]) }
            else if x.is_infinite() { o.extend([0xf9, if *x < 0.0 { 0xfc } else { 0x7c }, 0]) }
            else if f64::from(y) == *x {
                match half(y) {
                    Some(h) => { o.push(0xf9); o.extend(h.to_be_bytes()) }
                    None => { o.push(0xfa); o.extend(y.to_be_bytes()) }
                }
            } else { o.push(0xfb); o.extend(x.to_be_bytes()) }
        }
        Value::Bytes(b) => { head(o, 2, b.len() as u64); o.extend(b) }
        Value::Text(s) => { head(o, 3, s.len() as u64); o.extend(s.as_bytes()) }
        Value::Array(a) => { head(o, 4, a.len() as u64); for x in a { put(o, x)? } }
        Value::Map(m) => { head(o, 5, m.len() as u64); for (k, x) in m { put(o, k)?; put(o, x)? } }
        Value::Tag(t, x) => { head(o, 6, *t); put(o, x)? }
        Value::__Hidden => unreachable!(),
    }
    Ok(())
}
pub fn bytes(v: &Value) -> Result<Vec<u8>> {
    let mut o = vec![];
    put(&mut o, v)?;
    Ok(o)
}
impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        match self {
            Value::Null => s.serialize_unit(),
            Value::Bool(x) => s.serialize_bool(*x),
            Value::Integer(x) => s.serialize_i128(*x),
            Value::Float(x) => s.serialize_f64(*x),
            Value::Bytes(x) => s.serialize_bytes(x),
            Value::Text(x) => s.serialize_str(x),
            Value::Array(x) => x.serialize(s),
            Value::Map(x) => x.serialize(s),
            Value::Tag(_, x) => x.serialize(s),
            Value::__Hidden => unreachable!(),
        }
    }
}
pub struct Ser;
pub struct Seq(Vec<Value>, Option<&'static str>);
pub struct Map(BTreeMap<Value, Value>, Option<Value>, Option<&'static str>);
fn wrap(v: Value, t: Option<&'static str>) -> Value {
    match t {
        Some(t) => Value::Map([(Value::Text(t.into()), v)].into()),
        None => v,
    }
}
impl Seq {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.0.push(v.serialize(Ser)?);
        Ok(())
    }
    fn fin(self) -> Result<Value> {
        Ok(wrap(Value::Array(self.0), self.1))
    }
}
macro_rules! seq { ($($t:ident $f:ident),*) => { $(impl $t for Seq { type Ok = Value; type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.add(v) } fn end(self) -> Result<Value> { self.fin() } })* } }
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl SerializeMap for Map {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<()> {
        self.1 = Some(k.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.0.insert(self.1.take().unwrap(), v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Value> {
        Ok(wrap(Value::Map(self.0), self.2))
    }
}
macro_rules! st { ($($t:ident),*) => { $(impl $t for Map { type Ok = Value; type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { self.0.insert(Value::Text(k.into()), v.serialize(Ser)?); Ok(()) }
    fn end(self) -> Result<Value> { Ok(wrap(Value::Map(self.0), self.2)) } })* } }
st!(SerializeStruct, SerializeStructVariant);
macro_rules! int { ($($f:ident $t:ty),*) => { $(fn $f(self, x: $t) -> Result<Value> { Ok(Value::Integer(x as i128)) })* } }
impl Serializer for Ser {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = Map;
    int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, x: bool) -> Result<Value> { Ok(Value::Bool(x)) }
    fn serialize_f32(self, x: f32) -> Result<Value> { Ok(Value::Float(x.into())) }
    fn serialize_f64(self, x: f64) -> Result<Value> { Ok(Value::Float(x)) }
    fn serialize_char(self, x: char) -> Result<Value> { Ok(Value::Text(x.into())) }
    fn serialize_str(self, x: &str) -> Result<Value> { Ok(Value::Text(x.into())) }
    fn serialize_bytes(self, x: &[u8]) -> Result<Value> { Ok(Value::Bytes(x.into())) }
    fn serialize_none(self) -> Result<Value> { Ok(Value::Null) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Value> { v.serialize(self) }
    fn serialize_unit(self) -> Result<Value> { Ok(Value::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value> { Ok(Value::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value> { Ok(Value::Text(v.into())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Value> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Value> { Ok(wrap(v.serialize(self)?, Some(n))) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq> { Ok(Seq(vec![], None)) }
    fn serialize_tuple(self, _: usize) -> Result<Seq> { Ok(Seq(vec![], None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq> { Ok(Seq(vec![], None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq> { Ok(Seq(vec![], Some(n))) }
    fn serialize_map(self, _: Option<usize>) -> Result<Map> { Ok(Map(BTreeMap::new(), None, None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map> { Ok(Map(BTreeMap::new(), None, None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map> { Ok(Map(BTreeMap::new(), None, Some(n))) }
}
