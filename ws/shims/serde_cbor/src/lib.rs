//! Stand-in for serde_cbor 0.11: `Value`, `to_vec`, `from_slice`, `value::{from_value, to_value}`.
mod de;
mod ser;
pub mod error {
    #[derive(Debug, Clone, PartialEq)]
    pub struct Error(pub(crate) String);
    pub type Result<T> = std::result::Result<T, Error>;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
    impl serde::de::Error for Error {
        fn custom<T: std::fmt::Display>(m: T) -> Self {
            Error(m.to_string())
        }
    }
    impl serde::ser::Error for Error {
        fn custom<T: std::fmt::Display>(m: T) -> Self {
            Error(m.to_string())
        }
    }
}
pub use error::{Error, Result};
pub mod value {
    use super::*;
    use std::cmp::Ordering;
    use std::collections::BTreeMap;
    #[derive(Clone, Debug)]
    pub enum Value {
        Null,
        Bool(bool),
        Integer(i128),
        Float(f64),
        Bytes(Vec<u8>),
        Text(String),
        Array(Vec<Value>),
        Map(BTreeMap<Value, Value>),
        Tag(u64, Box<Value>),
        #[doc(hidden)]
        __Hidden,
    }
    impl Value {
        fn major_type(&self) -> u8 {
            use Value::*;
            match self {
                Null => 7,
                Bool(_) => 7,
                Integer(v) => if *v >= 0 { 0 } else { 1 },
                Tag(_, _) => 6,
                Float(_) => 7,
                Bytes(_) => 2,
                Text(_) => 3,
                Array(_) => 4,
                Map(_) => 5,
                __Hidden => unreachable!(),
            }
        }
    }
    impl PartialEq for Value {
        fn eq(&self, o: &Value) -> bool {
            self.cmp(o) == Ordering::Equal
        }
    }
    impl Eq for Value {}
    impl PartialOrd for Value {
        fn partial_cmp(&self, o: &Value) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for Value {
        fn cmp(&self, o: &Value) -> Ordering {
            use Value::*;
            if self.major_type() != o.major_type() {
                return self.major_type().cmp(&o.major_type());
            }
            match (self, o) {
                (Integer(a), Integer(b)) => a.abs().cmp(&b.abs()),
                (Bytes(a), Bytes(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Text(a), Text(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Array(a), Array(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Map(a), Map(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
                (Bytes(a), Bytes(b)) => a.cmp(b),
                (Text(a), Text(b)) => a.cmp(b),
                (a, b) => ser::bytes(a).expect("self is serializable").cmp(&ser::bytes(b).expect("other is serializable")),
            }
        }
    }
    macro_rules! from { ($($v:ident($t:ty)),*) => { $(impl From<$t> for Value { fn from(x: $t) -> Self { Value::$v(x.into()) } })* } }
    from!(Bool(bool), Integer(i8), Integer(i16), Integer(i32), Integer(i64), Integer(i128), Integer(u8), Integer(u16), Integer(u32), Integer(u64), Float(f32), Float(f64), Bytes(Vec<u8>), Text(String), Array(Vec<Value>), Map(BTreeMap<Value, Value>));
    pub fn from_value<T: serde::de::DeserializeOwned>(value: Value) -> Result<T> {
        T::deserialize(value)
    }
    pub fn to_value<T: serde::Serialize>(value: T) -> Result<Value> {
        value.serialize(ser::Ser)
    }
}
pub use value::Value;
pub fn to_vec<T: serde::Serialize + ?Sized>(value: &T) -> Result<Vec<u8>> {
    ser::bytes(&value.serialize(ser::Ser)?)
}
pub fn from_slice<'a, T: serde::Deserialize<'a>>(slice: &'a [u8]) -> Result<T> {
    let mut r = de::Reader { b: slice, i: 0 };
    let v = r.value(128)?;
    if r.i != slice.len() {
        return Err(Error(format!("trailing data at offset {}", r.i)));
    }
    T::deserialize(v)
}
