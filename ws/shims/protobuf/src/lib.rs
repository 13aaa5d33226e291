//! Stand-in for rust-protobuf 2.28 (not available offline): the proto3 wire format and the part of
//! the 2.x API that witnet-rust and the code generated by the `exonum-build` stand-in use.
use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ProtobufError {
    UnexpectedEof,
    UnexpectedWireType(u8),
    IncorrectTag(u32),
    IncorrectVarint,
    Utf8,
    InvalidEnum(i32),
    OverRecursionLimit,
}
impl fmt::Display for ProtobufError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "protobuf error: {:?}", self)
    }
}
impl std::error::Error for ProtobufError {}
pub type ProtobufResult<T> = Result<T, ProtobufError>;
pub mod error {
    pub use crate::{ProtobufError, ProtobufResult};
}

pub struct In<'a> {
    b: &'a [u8],
    pub depth: u32,
}
impl<'a> In<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        In { b, depth: 0 }
    }
    pub fn eof(&self) -> bool {
        self.b.is_empty()
    }
    pub fn varint(&mut self) -> ProtobufResult<u64> {
        let mut r = 0u64;
        for i in 0..10 {
            let (&x, rest) = self.b.split_first().ok_or(ProtobufError::UnexpectedEof)?;
            self.b = rest;
            r |= u64::from(x & 0x7f).wrapping_shl(7 * i);
            if x < 0x80 {
                return Ok(r);
            }
        }
        Err(ProtobufError::IncorrectVarint)
    }
    pub fn take(&mut self, n: usize) -> ProtobufResult<&'a [u8]> {
        if self.b.len() < n {
            return Err(ProtobufError::UnexpectedEof);
        }
        let (a, c) = self.b.split_at(n);
        self.b = c;
        Ok(a)
    }
    pub fn tag(&mut self) -> ProtobufResult<(u32, u8)> {
        let v = self.varint()?;
        let v = u32::try_from(v).map_err(|_| ProtobufError::IncorrectTag(v as u32))?;
        let (f, w) = (v >> 3, (v & 7) as u8);
        if f == 0 || w == 6 || w == 7 {
            return Err(ProtobufError::IncorrectTag(v));
        }
        Ok((f, w))
    }
    pub fn bytes(&mut self) -> ProtobufResult<&'a [u8]> {
        let n = self.varint()?;
        let n = usize::try_from(n).map_err(|_| ProtobufError::UnexpectedEof)?;
        self.take(n)
    }
    pub fn skip(&mut self, w: u8) -> ProtobufResult<()> {
        match w {
            0 => self.varint().map(|_| ()),
            1 => self.take(8).map(|_| ()),
            2 => self.bytes().map(|_| ()),
            3 => loop {
                let (_, w) = self.tag()?;
                if w == 4 {
                    return Ok(());
                }
                self.skip(w)?;
            },
            5 => self.take(4).map(|_| ()),
            w => Err(ProtobufError::UnexpectedWireType(w)),
        }
    }
}
pub fn expect(w: u8, e: u8) -> ProtobufResult<()> {
    if w == e {
        Ok(())
    } else {
        Err(ProtobufError::UnexpectedWireType(w))
    }
}
pub fn put_varint(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
pub fn put_tag(o: &mut Vec<u8>, f: u32, w: u8) {
    put_varint(o, u64::from(f << 3 | u32::from(w)));
}
pub fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    put_varint(o, b.len() as u64);
    o.extend_from_slice(b);
}

pub trait Clear {
    fn clear(&mut self);
}

pub trait Message: fmt::Debug + Send + Sync + 'static {
    #[doc(hidden)]
    fn put(&self, o: &mut Vec<u8>);
    #[doc(hidden)]
    fn merge(&mut self, i: &mut In<'_>) -> ProtobufResult<()>;
    fn new() -> Self
    where
        Self: Sized;
    fn write_to_bytes(&self) -> ProtobufResult<Vec<u8>> {
        let mut o = vec![];
        self.put(&mut o);
        Ok(o)
    }
    fn write_to_vec(&self, v: &mut Vec<u8>) -> ProtobufResult<()> {
        self.put(v);
        Ok(())
    }
    fn compute_size(&self) -> u32 {
        let mut o = vec![];
        self.put(&mut o);
        o.len() as u32
    }
    fn merge_from_bytes(&mut self, bytes: &[u8]) -> ProtobufResult<()> {
        self.merge(&mut In::new(bytes))
    }
    fn parse_from_bytes(bytes: &[u8]) -> ProtobufResult<Self>
    where
        Self: Sized,
    {
        let mut m = Self::new();
        m.merge_from_bytes(bytes)?;
        Ok(m)
    }
    fn is_initialized(&self) -> bool {
        true
    }
}
pub fn parse_from_bytes<M: Message>(bytes: &[u8]) -> ProtobufResult<M> {
    M::parse_from_bytes(bytes)
}
pub fn put_message<M: Message>(o: &mut Vec<u8>, f: u32, m: &M) {
    let mut b = vec![];
    m.put(&mut b);
    put_tag(o, f, 2);
    put_bytes(o, &b);
}
pub fn merge_message<M: Message>(m: &mut M, i: &mut In<'_>) -> ProtobufResult<()> {
    let depth = i.depth + 1;
    if depth > 100 {
        return Err(ProtobufError::OverRecursionLimit);
    }
    let mut sub = In { b: i.bytes()?, depth };
    m.merge(&mut sub)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SingularPtrField<T>(Option<Box<T>>);
impl<T> Default for SingularPtrField<T> {
    fn default() -> Self {
        Self(None)
    }
}
impl<T> SingularPtrField<T> {
    pub fn some(t: T) -> Self {
        Self(Some(Box::new(t)))
    }
    pub fn none() -> Self {
        Self(None)
    }
    pub fn from_option(o: Option<T>) -> Self {
        Self(o.map(Box::new))
    }
    pub fn is_some(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none()
    }
    pub fn into_option(self) -> Option<T> {
        self.0.map(|b| *b)
    }
    pub fn as_ref(&self) -> Option<&T> {
        self.0.as_deref()
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        self.0.as_deref_mut()
    }
    pub fn unwrap(self) -> T {
        *self.0.unwrap()
    }
    pub fn get_ref(&self) -> &T {
        self.as_ref().unwrap()
    }
    pub fn take(&mut self) -> Option<T> {
        self.0.take().map(|b| *b)
    }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> SingularPtrField<U> {
        SingularPtrField::from_option(self.into_option().map(f))
    }
    pub fn clear(&mut self) {
        self.0 = None
    }
    pub fn set_default(&mut self) -> &mut T
    where
        T: Default,
    {
        self.0 = Some(Box::default());
        self.as_mut().unwrap()
    }
    pub fn mut_or_default(&mut self) -> &mut T
    where
        T: Default,
    {
        self.0.get_or_insert_with(Default::default)
    }
    pub fn unwrap_or_default(self) -> T
    where
        T: Default,
    {
        self.into_option().unwrap_or_default()
    }
}
impl<T> From<Option<T>> for SingularPtrField<T> {
    fn from(o: Option<T>) -> Self {
        Self::from_option(o)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RepeatedField<T>(Vec<T>);
impl<T> Default for RepeatedField<T> {
    fn default() -> Self {
        Self(vec![])
    }
}
impl<T> RepeatedField<T> {
    pub fn new() -> Self {
        Self(vec![])
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        Self(v)
    }
    pub fn from_slice(v: &[T]) -> Self
    where
        T: Clone,
    {
        Self(v.to_vec())
    }
    pub fn into_vec(self) -> Vec<T> {
        self.0
    }
}
impl<T> Deref for RepeatedField<T> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}
impl<T> DerefMut for RepeatedField<T> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.0
    }
}
impl<T> From<Vec<T>> for RepeatedField<T> {
    fn from(v: Vec<T>) -> Self {
        Self(v)
    }
}
impl<T> From<RepeatedField<T>> for Vec<T> {
    fn from(v: RepeatedField<T>) -> Self {
        v.0
    }
}
impl<T> IntoIterator for RepeatedField<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a RepeatedField<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T> std::iter::FromIterator<T> for RepeatedField<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
