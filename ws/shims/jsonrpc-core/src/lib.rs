//! The part of jsonrpc-core that the wallet uses: a table of methods, called directly.
use serde::{Deserialize, Serialize, de::DeserializeOwned};
pub use serde_json::Value;
use std::{collections::HashMap, marker::PhantomData};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Params {
    None,
    Array(Vec<Value>),
    Map(serde_json::Map<String, Value>),
}
impl From<Params> for Value {
    fn from(p: Params) -> Value {
        match p {
            Params::None => Value::Null,
            Params::Array(v) => Value::Array(v),
            Params::Map(m) => Value::Object(m),
        }
    }
}
impl Params {
    pub fn parse<D: DeserializeOwned>(self) -> Result<D> {
        serde_json::from_value(self.into()).map_err(|e| Error { code: ErrorCode::InvalidParams, message: format!("Invalid params: {e}."), data: None })
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum ErrorCode {
    MethodNotFound,
    InvalidParams,
    ServerError(i64),
    InternalError,
}
pub type Result<T> = std::result::Result<T, Error>;
pub type BoxFuture<T> = std::pin::Pin<Box<dyn Future<Output = T> + Send>>;
impl Error {
    pub fn invalid_params(m: impl Into<String>) -> Self {
        Error { code: ErrorCode::InvalidParams, message: m.into(), data: None }
    }
    pub fn invalid_params_with_details(m: impl Into<String>, d: impl std::fmt::Debug) -> Self {
        Error { code: ErrorCode::InvalidParams, message: format!("Invalid parameters: {}", m.into()), data: Some(Value::String(format!("{d:?}"))) }
    }
    pub fn internal_error() -> Self {
        Error { code: ErrorCode::InternalError, message: "Internal error".into(), data: None }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Error {
    pub code: ErrorCode,
    pub message: String,
    pub data: Option<Value>,
}
pub trait Middleware<T> {}
impl<T> Middleware<T> for () {}
type Method = Box<dyn Fn(Params) -> Result<Value>>;
pub struct MetaIoHandler<T, S = ()>(HashMap<String, Method>, PhantomData<(T, S)>);
impl<T, S> Default for MetaIoHandler<T, S> {
    fn default() -> Self {
        MetaIoHandler(HashMap::new(), PhantomData)
    }
}
/// Something that computes a result when asked to.
pub trait Finish<T> {
    fn finish(self) -> T;
}
impl<T, S> MetaIoHandler<T, S> {
    pub fn add_method<F, R>(&mut self, name: &str, f: F)
    where
        F: Fn(Params) -> R + 'static,
        R: Finish<Result<Value>>,
    {
        self.0.insert(name.to_string(), Box::new(move |p| f(p).finish()));
    }
    pub fn call(&self, name: &str, p: Params) -> Result<Value> {
        match self.0.get(name) {
            Some(f) => f(p),
            None => Err(Error { code: ErrorCode::MethodNotFound, message: "Method not found".into(), data: None }),
        }
    }
    pub fn methods(&self) -> Vec<String> {
        let mut v: Vec<_> = self.0.keys().cloned().collect();
        v.sort();
        v
    }
}
