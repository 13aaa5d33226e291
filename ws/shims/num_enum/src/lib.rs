//! Stand-in for num_enum 0.7.
pub use num_enum_derive::*;
pub struct TryFromPrimitiveError<P> { pub number: P, name: &'static str }
impl<P> TryFromPrimitiveError<P> { pub fn new(number: P, name: &'static str) -> Self { Self { number, name } } }
impl<P: std::fmt::Debug> std::fmt::Debug for TryFromPrimitiveError<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_struct("TryFromPrimitiveError").field("number", &self.number).finish() }
}
impl<P: std::fmt::Debug> std::fmt::Display for TryFromPrimitiveError<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "No discriminant in enum `{}` matches the value `{:?}`", self.name, self.number) }
}
impl<P: std::fmt::Debug> std::error::Error for TryFromPrimitiveError<P> {}
pub trait TryFromPrimitive: Sized {
    type Primitive;
    type Error;
    fn try_from_primitive(n: Self::Primitive) -> Result<Self, Self::Error>;
}
