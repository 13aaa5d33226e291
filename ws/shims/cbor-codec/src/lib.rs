//! Stand-in for cbor-codec 0.7 (witnet's fork): generic encoder and decoder of CBOR values.
pub mod types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Type { Array, Bool, Break, Bytes, Float16, Float32, Float64, Int16, Int32, Int64, Int8, Null, Object, Tagged, Text, UInt16, UInt32, UInt64, UInt8, Undefined, Unknown { major: u8, info: u8 } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Tag { DateTime, Timestamp, Bignum, NegativeBignum, Decimal, Bigfloat, ToBase64Url, ToBase64, ToBase16, Cbor, Uri, Base64Url, Base64, Regex, Mime, CborSelf, Unassigned(u64) }
    impl Tag {
        pub fn of(x: u64) -> Tag {
            use Tag::*;
            match x { 0 => DateTime, 1 => Timestamp, 2 => Bignum, 3 => NegativeBignum, 4 => Decimal, 5 => Bigfloat, 21 => ToBase64Url, 22 => ToBase64, 23 => ToBase16, 24 => Cbor, 32 => Uri, 33 => Base64Url, 34 => Base64, 35 => Regex, 36 => Mime, 55799 => CborSelf, n => Unassigned(n) }
        }
        pub fn to(&self) -> u64 {
            use Tag::*;
            match *self { DateTime => 0, Timestamp => 1, Bignum => 2, NegativeBignum => 3, Decimal => 4, Bigfloat => 5, ToBase64Url => 21, ToBase64 => 22, ToBase16 => 23, Cbor => 24, Uri => 32, Base64Url => 33, Base64 => 34, Regex => 35, Mime => 36, CborSelf => 55799, Unassigned(n) => n }
        }
    }
}
pub mod value {
    use crate::types::Tag;
    use std::collections::{BTreeMap, LinkedList};
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value { Array(Vec<Value>), Bool(bool), Break, Bytes(Bytes), F32(f32), F64(f64), Int(Int), I8(i8), I16(i16), I32(i32), I64(i64), Map(BTreeMap<Key, Value>), Null, Simple(Simple), Tagged(Tag, Box<Value>), Text(Text), Undefined, U8(u8), U16(u16), U32(u32), U64(u64) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Simple { Unassigned(u8), Reserved(u8) }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Bytes { Bytes(Vec<u8>), Chunks(LinkedList<Vec<u8>>) }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Text { Text(String), Chunks(LinkedList<String>) }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Key { Bool(bool), Bytes(Bytes), Int(Int), Text(Text) }
    impl Key { pub fn u64(n: u64) -> Key { Key::Int(Int::Pos(n)) } }
    /// `Neg(n)` stands for `-1 - n`.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Int { Neg(u64), Pos(u64) }
    impl Int {
        pub fn from_u64(n: u64) -> Int { Int::Pos(n) }
        pub fn from_i64(n: i64) -> Int { if n < 0 { Int::Neg((-1 - n) as u64) } else { Int::Pos(n as u64) } }
        pub fn u64(&self) -> Option<u64> { match *self { Int::Pos(n) => Some(n), _ => None } }
        pub fn i64(&self) -> Option<i64> { match *self { Int::Pos(n) => i64::try_from(n).ok(), Int::Neg(n) => i64::try_from(n).ok().map(|n| -1 - n) } }
    }
}
#[derive(Clone, Debug)]
pub struct Config { pub max_len_array: usize, pub max_len_bytes: usize, pub max_len_text: usize, pub max_size_map: usize, pub max_nested: usize, pub skip_tags: bool }
impl Default for Config {
    fn default() -> Config { Config { max_len_array: 1000, max_len_bytes: 0x500_0000, max_len_text: 0x500_0000, max_size_map: 1000, max_nested: 16, skip_tags: false } }
}
pub mod encoder {
    use crate::value::{Bytes, Int, Key, Simple, Text, Value};
    use std::io::Write;
    #[derive(Debug)]
    pub enum EncodeError { InvalidValue(Value), IoError(std::io::Error), UnexpectedEof, InvalidSimpleValue(Simple) }
    impl std::fmt::Display for EncodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "EncodeError: {self:?}") } }
    impl std::error::Error for EncodeError {}
    impl From<std::io::Error> for EncodeError { fn from(e: std::io::Error) -> Self { EncodeError::IoError(e) } }
    pub type EncodeResult = Result<(), EncodeError>;
    pub struct Encoder<W>(W);
    impl<W: Write> Encoder<W> {
        pub fn new(w: W) -> Self { Encoder(w) }
        pub fn into_writer(self) -> W { self.0 }
        pub fn writer(&mut self) -> &mut W { &mut self.0 }
        fn head(&mut self, major: u8, n: u64) -> EncodeResult {
            let m = major << 5;
            if n < 24 { self.0.write_all(&[m | n as u8])? }
            else if n <= 0xff { self.0.write_all(&[m | 24, n as u8])? }
            else if n <= 0xffff { self.0.write_all(&[m | 25])?; self.0.write_all(&(n as u16).to_be_bytes())? }
            else if n <= 0xffff_ffff { self.0.write_all(&[m | 26])?; self.0.write_all(&(n as u32).to_be_bytes())? }
            else { self.0.write_all(&[m | 27])?; self.0.write_all(&n.to_be_bytes())? }
            Ok(())
        }
        fn int(&mut self, n: i64) -> EncodeResult { if n < 0 { self.head(1, (-1 - n) as u64) } else { self.head(0, n as u64) } }
        fn text(&mut self, t: &Text) -> EncodeResult {
            match t {
                Text::Text(s) => { self.head(3, s.len() as u64)?; Ok(self.0.write_all(s.as_bytes())?) }
                Text::Chunks(c) => { self.0.write_all(&[0x7f])?; for s in c { self.head(3, s.len() as u64)?; self.0.write_all(s.as_bytes())? } Ok(self.0.write_all(&[0xff])?) }
            }
        }
        fn bytes(&mut self, b: &Bytes) -> EncodeResult {
            match b {
                Bytes::Bytes(s) => { self.head(2, s.len() as u64)?; Ok(self.0.write_all(s)?) }
                Bytes::Chunks(c) => { self.0.write_all(&[0x5f])?; for s in c { self.head(2, s.len() as u64)?; self.0.write_all(s)? } Ok(self.0.write_all(&[0xff])?) }
            }
        }
    }
    pub struct GenericEncoder<W> { encoder: Encoder<W> }
    impl<W: Write> GenericEncoder<W> {
        pub fn new(w: W) -> Self { GenericEncoder { encoder: Encoder::new(w) } }
        pub fn from_encoder(encoder: Encoder<W>) -> Self { GenericEncoder { encoder } }
        pub fn into_inner(self) -> Encoder<W> { self.encoder }
        pub fn borrow_mut(&mut self) -> &mut Encoder<W> { &mut self.encoder }
        pub fn value(&mut self, x: &Value) -> EncodeResult {
            let e = &mut self.encoder;
            match x {
                Value::Array(v) => { e.head(4, v.len() as u64)?; for x in v { self.value(x)? } Ok(()) }
                Value::Bool(b) => Ok(e.0.write_all(&[if *b { 0xf5 } else { 0xf4 }])?),
                Value::Break => Ok(e.0.write_all(&[0xff])?),
                Value::Bytes(b) => e.bytes(b),
                Value::F32(x) => { e.0.write_all(&[0xfa])?; Ok(e.0.write_all(&x.to_be_bytes())?) }
                Value::F64(x) => { e.0.write_all(&[0xfb])?; Ok(e.0.write_all(&x.to_be_bytes())?) }
                Value::Int(Int::Pos(n)) => e.head(0, *n),
                Value::Int(Int::Neg(n)) => e.head(1, *n),
                Value::I8(n) => e.int((*n).into()), Value::I16(n) => e.int((*n).into()), Value::I32(n) => e.int((*n).into()), Value::I64(n) => e.int(*n),
                Value::Map(m) => {
                    e.head(5, m.len() as u64)?;
                    for (k, v) in m {
                        let e = &mut self.encoder;
                        match k { Key::Bool(b) => e.0.write_all(&[if *b { 0xf5 } else { 0xf4 }])?, Key::Bytes(b) => e.bytes(b)?, Key::Int(Int::Pos(n)) => e.head(0, *n)?, Key::Int(Int::Neg(n)) => e.head(1, *n)?, Key::Text(t) => e.text(t)? }
                        self.value(v)?
                    }
                    Ok(())
                }
                Value::Null => Ok(e.0.write_all(&[0xf6])?),
                Value::Undefined => Ok(e.0.write_all(&[0xf7])?),
                Value::Simple(Simple::Unassigned(n) | Simple::Reserved(n)) => if *n < 24 { Ok(e.0.write_all(&[0xe0 | n])?) } else { Ok(e.0.write_all(&[0xf8, *n])?) },
                Value::Tagged(t, v) => { e.head(6, t.to())?; self.value(v) }
                Value::Text(t) => e.text(t),
                Value::U8(n) => e.head(0, (*n).into()), Value::U16(n) => e.head(0, (*n).into()), Value::U32(n) => e.head(0, (*n).into()), Value::U64(n) => e.head(0, *n),
            }
        }
    }
}
pub mod decoder {
    use crate::{types::{Tag, Type}, value::{Bytes, Int, Key, Simple, Text, Value}, Config};
    use std::collections::{BTreeMap, LinkedList};
    use std::io::Read;
    #[derive(Debug)]
    pub enum DecodeError { DuplicateKey(Value), IntOverflow(u64), InvalidKey(Value), InvalidTag(Value), InvalidUtf8(std::string::FromUtf8Error), IoError(std::io::Error), TooLong { max: usize, actual: u64 }, TooNested, UnexpectedBreak, UnexpectedEof, UnexpectedType { datatype: Type, info: u8 } }
    impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "DecodeError: {self:?}") } }
    impl std::error::Error for DecodeError {}
    impl From<std::io::Error> for DecodeError { fn from(e: std::io::Error) -> Self { if e.kind() == std::io::ErrorKind::UnexpectedEof { DecodeError::UnexpectedEof } else { DecodeError::IoError(e) } } }
    impl From<std::string::FromUtf8Error> for DecodeError { fn from(e: std::string::FromUtf8Error) -> Self { DecodeError::InvalidUtf8(e) } }
    pub type DecodeResult<A> = Result<A, DecodeError>;
    fn f16(b: u16) -> f32 {
        let (s, e, m) = (if b >> 15 == 1 { -1f32 } else { 1f32 }, (b >> 10 & 31) as i32, (b & 0x3ff) as f32);
        s * match e { 0 => m * 2f32.powi(-24), 31 => if m == 0.0 { f32::INFINITY } else { f32::NAN }, _ => (m + 1024.0) * 2f32.powi(e - 25) }
    }
    pub struct GenericDecoder<R> { config: Config, reader: R }
    impl<R: Read> GenericDecoder<R> {
        pub fn new(config: Config, reader: R) -> Self { GenericDecoder { config, reader } }
        pub fn value(&mut self) -> DecodeResult<Value> { let n = self.config.max_nested; self.dec(n) }
        fn byte(&mut self) -> DecodeResult<u8> { let mut b = [0]; self.reader.read_exact(&mut b)?; Ok(b[0]) }
        fn unsigned(&mut self, ty: Type, info: u8) -> DecodeResult<u64> {
            Ok(match info {
                0..=23 => info.into(),
                24 => self.byte()?.into(),
                25 => { let mut b = [0; 2]; self.reader.read_exact(&mut b)?; u16::from_be_bytes(b).into() }
                26 => { let mut b = [0; 4]; self.reader.read_exact(&mut b)?; u32::from_be_bytes(b).into() }
                27 => { let mut b = [0; 8]; self.reader.read_exact(&mut b)?; u64::from_be_bytes(b) }
                _ => return Err(DecodeError::UnexpectedType { datatype: ty, info }),
            })
        }
        fn limited(&mut self, ty: Type, info: u8, max: usize) -> DecodeResult<usize> {
            let n = self.unsigned(ty, info)?;
            if n > max as u64 { return Err(DecodeError::TooLong { max, actual: n }) }
            Ok(n as usize)
        }
        fn raw(&mut self, n: usize) -> DecodeResult<Vec<u8>> {
            let mut v = vec![];
            if (&mut self.reader).take(n as u64).read_to_end(&mut v)? < n { return Err(DecodeError::UnexpectedEof) }
            Ok(v)
        }
        fn chunks(&mut self, major: u8, max: usize) -> DecodeResult<LinkedList<Vec<u8>>> {
            let mut l = LinkedList::new();
            loop {
                let b = self.byte()?;
                if b == 0xff { return Ok(l) }
                if b >> 5 != major { return Err(DecodeError::UnexpectedType { datatype: Type::Unknown { major: b >> 5, info: b & 31 }, info: b & 31 }) }
                let n = self.limited(Type::Bytes, b & 31, max)?;
                l.push_back(self.raw(n)?);
            }
        }
        fn dec(&mut self, level: usize) -> DecodeResult<Value> {
            if level == 0 { return Err(DecodeError::TooNested) }
            let b = self.byte()?;
            let (major, info) = (b >> 5, b & 31);
            Ok(match (major, info) {
                (0, 0..=24) => Value::U8(self.unsigned(Type::UInt8, info)? as u8),
                (0, 25) => Value::U16(self.unsigned(Type::UInt16, info)? as u16),
                (0, 26) => Value::U32(self.unsigned(Type::UInt32, info)? as u32),
                (0, _) => Value::U64(self.unsigned(Type::UInt64, info)?),
                (1, _) => {
                    let n = self.unsigned(Type::Int64, info)?;
                    match (info, i64::try_from(n)) {
                        (_, Err(_)) => Value::Int(Int::Neg(n)),
                        (0..=24, Ok(n)) if n <= i8::MAX as i64 => Value::I8(-1 - n as i8),
                        (0..=25, Ok(n)) if n <= i16::MAX as i64 => Value::I16(-1 - n as i16),
                        (0..=26, Ok(n)) if n <= i32::MAX as i64 => Value::I32(-1 - n as i32),
                        (_, Ok(n)) => Value::I64(-1 - n),
                    }
                }
                (2, 31) => { let m = self.config.max_len_bytes; Value::Bytes(Bytes::Chunks(self.chunks(2, m)?)) }
                (2, _) => { let m = self.config.max_len_bytes; let n = self.limited(Type::Bytes, info, m)?; Value::Bytes(Bytes::Bytes(self.raw(n)?)) }
                (3, 31) => { let m = self.config.max_len_text; Value::Text(Text::Chunks(self.chunks(3, m)?.into_iter().map(String::from_utf8).collect::<Result<_, _>>()?)) }
                (3, _) => { let m = self.config.max_len_text; let n = self.limited(Type::Text, info, m)?; Value::Text(Text::Text(String::from_utf8(self.raw(n)?)?)) }
                (4, 31) => {
                    let mut v = vec![];
                    loop { match self.dec(level - 1) { Ok(Value::Break) => break, x => v.push(x?) } }
                    Value::Array(v)
                }
                (4, _) => { let m = self.config.max_len_array; let n = self.limited(Type::Array, info, m)?; let mut v = vec![]; for _ in 0..n { match self.dec(level - 1)? { Value::Break => return Err(DecodeError::UnexpectedBreak), x => v.push(x) } } Value::Array(v) }
                (5, _) => {
                    let m = self.config.max_size_map;
                    let n = if info == 31 { None } else { Some(self.limited(Type::Object, info, m)?) };
                    let mut map = BTreeMap::new();
                    let mut i = 0;
                    while n != Some(i) {
                        i += 1;
                        let k = match self.dec(level - 1)? {
                            Value::Break if n.is_none() => break,
                            Value::Bool(b) => Key::Bool(b),
                            Value::Bytes(b) => Key::Bytes(b),
                            Value::Text(t) => Key::Text(t),
                            Value::U8(n) => Key::Int(Int::Pos(n.into())), Value::U16(n) => Key::Int(Int::Pos(n.into())), Value::U32(n) => Key::Int(Int::Pos(n.into())), Value::U64(n) => Key::Int(Int::Pos(n)),
                            Value::I8(n) => Key::Int(Int::from_i64(n.into())), Value::I16(n) => Key::Int(Int::from_i64(n.into())), Value::I32(n) => Key::Int(Int::from_i64(n.into())), Value::I64(n) => Key::Int(Int::from_i64(n)),
                            Value::Int(i) => Key::Int(i),
                            other => return Err(DecodeError::InvalidKey(other)),
                        };
                        if map.contains_key(&k) { return Err(DecodeError::DuplicateKey(Value::Null)) }
                        match self.dec(level - 1)? { Value::Break => return Err(DecodeError::UnexpectedBreak), v => map.insert(k, v) };
                    }
                    Value::Map(map)
                }
                (6, _) => { let t = Tag::of(self.unsigned(Type::Tagged, info)?); Value::Tagged(t, Box::new(self.dec(level - 1)?)) }
                (7, 20) => Value::Bool(false),
                (7, 21) => Value::Bool(true),
                (7, 22) => Value::Null,
                (7, 23) => Value::Undefined,
                (7, 25) => Value::F32(f16(self.unsigned(Type::Float16, 25)? as u16)),
                (7, 26) => Value::F32(f32::from_bits(self.unsigned(Type::Float32, 26)? as u32)),
                (7, 27) => Value::F64(f64::from_bits(self.unsigned(Type::Float64, 27)?)),
                (7, 31) => Value::Break,
                (7, 24) => { let n = self.byte()?; Value::Simple(if n < 32 { Simple::Reserved(n) } else { Simple::Unassigned(n) }) }
                (7, 0..=19) => Value::Simple(Simple::Unassigned(info)),
                _ => return Err(DecodeError::UnexpectedType { datatype: Type::Unknown { major, info }, info }),
            })
        }
    }
}
pub use decoder::{DecodeError, GenericDecoder};
pub use encoder::{EncodeError, Encoder, GenericEncoder};
