//! The part of /repo/net without actors: `Uri` and the HTTP client. The JSON-RPC client is an
//! in-process stand-in that answers from a closure.
pub type Uri = reqwest::Url;
pub mod client {
    #[path = "/repo/net/src/client/http/mod.rs"]
    pub mod http;
    pub mod tcp {
        use thiserror::Error;

        #[derive(Debug, Error)]
        pub enum Error {
            #[error("request failed: {message}")]
            RequestFailed { message: String },
            #[error("request params failed to serialize to json")]
            SerializeFailed(serde_json::Error),
            #[error("request timed out after {0} milliseconds")]
            RequestTimedOut(u128),
        }

        pub mod jsonrpc {
            use super::Error;
            use serde_json::Value;
            use actix::prelude::*;
            use std::time::Duration;

            #[derive(Debug, Clone)]
            pub struct Request {
                method: String,
                params: Value,
            }
            impl Request {
                pub fn method<T: Into<String>>(method: T) -> Self {
                    Request { method: method.into(), params: Value::Null }
                }
                pub fn params<T: serde::Serialize>(mut self, params: T) -> Result<Self, Error> {
                    self.params = serde_json::to_value(params).map_err(Error::SerializeFailed)?;
                    Ok(self)
                }
                pub fn value(mut self, params: Value) -> Self {
                    self.params = params;
                    self
                }
                pub fn timeout(self, _: Duration) -> Self {
                    self
                }
            }
            impl Message for Request {
                type Result = Result<Value, Error>;
            }
            #[derive(Clone)]
            pub struct Subscribe(pub Request, pub Recipient<NotifySubscriptionTopic>);
            impl Message for Subscribe {
                type Result = ();
            }
            pub struct NotifySubscriptionTopic {
                pub topic: String,
                pub value: Value,
            }
            impl Message for NotifySubscriptionTopic {
                type Result = ();
            }
            #[derive(Clone)]
            pub struct GetCurrentNodeUrl;
            impl Message for GetCurrentNodeUrl {
                type Result = String;
            }

            type Answer = dyn Fn(&str, &Value) -> Result<Value, Error> + Send + Sync;
            /// Answers every request at once, from the closure it was made with.
            pub struct JsonRpcClient(Box<Answer>);
            impl JsonRpcClient {
                pub fn local(f: impl Fn(&str, &Value) -> Result<Value, Error> + Send + Sync + 'static) -> Addr<JsonRpcClient> {
                    JsonRpcClient(Box::new(f)).start()
                }
            }
            impl Actor for JsonRpcClient {
                type Context = Context<Self>;
            }
            impl Handler<Request> for JsonRpcClient {
                type Result = Result<Value, Error>;
                fn handle(&mut self, r: Request, _: &mut Self::Context) -> Self::Result {
                    (self.0)(&r.method, &r.params)
                }
            }
            impl Handler<Subscribe> for JsonRpcClient {
                type Result = ();
                fn handle(&mut self, _: Subscribe, _: &mut Self::Context) {}
            }
            impl Handler<GetCurrentNodeUrl> for JsonRpcClient {
                type Result = String;
                fn handle(&mut self, _: GetCurrentNodeUrl, _: &mut Self::Context) -> String {
                    "127.0.0.1:21338".to_string()
                }
            }
        }
    }
}
pub mod server {
    pub mod ws {
        use std::cell::RefCell;
        type Handler = jsonrpc_pubsub::PubSubHandler;
        thread_local! {
            static STARTED: RefCell<Option<Handler>> = const { RefCell::new(None) };
        }
        /// The methods of the server that was started last in this thread.
        pub fn take() -> Option<Handler> {
            STARTED.with(|s| s.borrow_mut().take())
        }
        /// A server without a socket.
        pub struct Server;
        #[derive(Default)]
        pub struct ServerBuilder(Option<Handler>);
        impl Server {
            pub fn build() -> ServerBuilder {
                ServerBuilder::default()
            }
        }
        impl ServerBuilder {
            pub fn handler(self, h: Handler) -> Self {
                ServerBuilder(Some(h))
            }
            pub fn addr(self, _: std::net::SocketAddr) -> Self {
                self
            }
            pub fn start(self) -> Result<Server, String> {
                STARTED.with(|s| *s.borrow_mut() = self.0);
                Ok(Server)
            }
        }
    }
}
