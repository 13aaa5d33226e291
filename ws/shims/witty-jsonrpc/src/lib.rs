//! A table of methods, called directly.
use jsonrpc_core::{Error, ErrorCode, Params, Value};
use jsonrpc_pubsub::{Subscriber, SubscriptionId};
use std::{collections::BTreeMap, future::Future, pin::Pin, sync::Arc};

type Answer = Pin<Box<dyn Future<Output = Result<Value, Error>>>>;
pub mod handler {
    pub trait Handler {
        type Metadata: std::fmt::Debug + Default + 'static;
    }
    pub struct Plain;
    impl Handler for Plain {
        type Metadata = super::Session;
    }
}
use handler::Handler;
type Off<M> = Arc<dyn Fn(SubscriptionId, Option<M>) -> jsonrpc_core::BoxFuture<Result<Value, Error>>>;
pub struct Table<M> {
    methods: BTreeMap<String, Box<dyn Fn(Params) -> Answer>>,
    subscription: Option<(Arc<dyn Fn(Params, M, Subscriber)>, Off<M>)>,
}
#[derive(Debug, Clone, Default)]
pub struct Session;
impl Session {
    pub fn mock() -> Self {
        Session
    }
}
pub type WittyMultiServer = Table<Session>;
impl<M: Default> Table<M> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Table { methods: BTreeMap::new(), subscription: None }
    }
    pub fn with_runtime(self, _: tokio_sim::runtime::Handle) -> Self {
        self
    }
    pub fn add_transport<T>(&mut self, _: T) {}
    pub fn start(&mut self) -> std::io::Result<()> {
        Ok(())
    }
    pub fn describe_api(&self) -> Vec<String> {
        let mut v = self.names();
        v.extend(["witnet_subscribe".to_string(), "witnet_unsubscribe".to_string()]);
        v
    }
    /// A request in a line, as it comes from outside.
    pub fn handle_request_sync(&mut self, line: &str, _: M) -> Option<String> {
        let error = |e: Error, id: &Value| {
            let code = match e.code {
                ErrorCode::MethodNotFound => -32601,
                ErrorCode::InvalidParams => -32602,
                ErrorCode::InternalError => -32603,
                ErrorCode::ServerError(c) => c,
            };
            let data = e.data.map(|d| format!(r#","data":{d}"#)).unwrap_or_default();
            Some(format!(r#"{{"jsonrpc":"2.0","error":{{"code":{code},"message":{}{data}}},"id":{id}}}"#, Value::String(e.message)))
        };
        let Ok(v) = serde_json::from_str::<Value>(line) else {
            return Some(r#"{"jsonrpc":"2.0","error":{"code":-32700,"message":"Parse error"},"id":null}"#.into());
        };
        let p = match &v["params"] {
            Value::Array(a) => Params::Array(a.clone()),
            Value::Object(m) => Params::Map(m.clone()),
            _ => Params::None,
        };
        let r = match v["method"].as_str().unwrap_or("") {
            "witnet_subscribe" => self.subscribe(p).map(|(i, _)| match i {
                SubscriptionId::Number(n) => n.into(),
                SubscriptionId::String(s) => s.into(),
            }),
            "witnet_unsubscribe" => {
                let id = SubscriptionId::String(v["params"][0].as_str().unwrap_or("").into());
                match actix_sim::world::block_on(self.unsubscribe(id)) {
                    Ok(Value::Bool(false)) => Err(Error::invalid_params("Invalid subscription id.")),
                    r => r,
                }
            }
            m => actix_sim::world::block_on(self.call(m, p)),
        };
        match r {
            Ok(x) => Some(format!(r#"{{"jsonrpc":"2.0","result":{x},"id":{}}}"#, v["id"])),
            Err(e) => error(e, &v["id"]),
        }
    }
    pub fn names(&self) -> Vec<String> {
        self.methods.keys().cloned().collect()
    }
    pub fn call(&self, name: &str, p: Params) -> Answer {
        match self.methods.get(name) {
            Some(f) => f(p),
            None => Box::pin(std::future::ready(Err(Error { code: ErrorCode::MethodNotFound, message: "Method not found".into(), data: None }))),
        }
    }
    pub fn subscribe(&self, p: Params) -> Result<(SubscriptionId, jsonrpc_pubsub::Sink), Error> {
        let (s, r) = Subscriber::new();
        self.subscription.as_ref().unwrap().0(p, M::default(), s);
        let r = r.lock().unwrap().take();
        r.expect("a subscriber was neither accepted nor rejected")
    }
    pub fn unsubscribe(&self, id: SubscriptionId) -> jsonrpc_core::BoxFuture<Result<Value, Error>> {
        self.subscription.as_ref().unwrap().1(id, None)
    }
}
pub mod server {
    use super::*;
    pub trait ActixServer<H: Handler> {
        fn add_actix_method<F, R>(&mut self, system: &Option<actix_sim::System>, name: &str, f: F)
        where
            F: Fn(Params) -> Pin<Box<R>> + 'static,
            R: Future<Output = Result<Value, Error>> + 'static;
        fn add_actix_subscription<A, B>(&mut self, system: &Option<actix_sim::System>, name: &str, on: (&str, Arc<A>), off: (&str, Arc<B>))
        where
            A: Fn(Params, H::Metadata, Subscriber) + 'static,
            B: Fn(SubscriptionId, Option<H::Metadata>) -> jsonrpc_core::BoxFuture<Result<Value, Error>> + 'static;
    }
    impl ActixServer<handler::Plain> for Table<Session> {
        fn add_actix_method<F, R>(&mut self, _: &Option<actix_sim::System>, name: &str, f: F)
        where
            F: Fn(Params) -> Pin<Box<R>> + 'static,
            R: Future<Output = Result<Value, Error>> + 'static,
        {
            self.methods.insert(name.into(), Box::new(move |p| f(p)));
        }
        fn add_actix_subscription<A, B>(&mut self, _: &Option<actix_sim::System>, _: &str, on: (&str, Arc<A>), off: (&str, Arc<B>))
        where
            A: Fn(Params, Session, Subscriber) + 'static,
            B: Fn(SubscriptionId, Option<Session>) -> jsonrpc_core::BoxFuture<Result<Value, Error>> + 'static,
        {
            self.subscription = Some((on.1, off.1));
        }
    }
}
pub mod transports {
    macro_rules! transports {
        ($($m:ident $t:ident $s:ident),*) => {$(
            pub mod $m {
                pub struct $s {
                    pub address: String,
                }
                pub struct $t($s);
                impl $t {
                    pub fn new(s: $s) -> Self {
                        $t(s)
                    }
                }
            }
        )*};
    }
    transports!(http HttpTransport HttpTransportSettings, tcp TcpTransport TcpTransportSettings, ws WsTransport WsTransportSettings);
}
pub mod prelude {
    pub use super::{Session, WittyMultiServer};
}
