//! The wallet as its users see it: a JSON-RPC server, with a node behind it.
use crate::world::*;
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::HashMap,
    sync::{Arc, Mutex, OnceLock},
    time::Duration,
};
use actix::prelude::*;
use jsonrpc_core::{Error, ErrorCode, Params as JsonParams};
use jsonrpc_pubsub::{PubSubHandler, Sink, SubscriptionId};
use witnet_data_structures::chain::Block;
use witnet_net::client::tcp::jsonrpc::{JsonRpcClient, NotifySubscriptionTopic};
use witnet_wallet::{
    actors::app::{self, App, NodeClient},
    params::Params,
};

pub const EXPIRES: Duration = Duration::from_secs(100);

pub struct Rpc {
    pub node: Arc<Mutex<Node>>,
    pub db: Arc<rocksdb::DB>,
    app: Addr<App>,
    io: PubSubHandler,
    pub sinks: RefCell<HashMap<String, Sink>>,
}
impl Drop for Rpc {
    fn drop(&mut self) {
        self.app.close();
    }
}
pub fn object(v: Value) -> JsonParams {
    match v {
        Value::Null => JsonParams::None,
        Value::Array(a) => JsonParams::Array(a),
        Value::Object(m) => JsonParams::Map(m),
        v => JsonParams::Array(vec![v]),
    }
}
/// The number by which the server says what is wrong.
pub fn code(e: &Error) -> i64 {
    match e.code {
        ErrorCode::ServerError(n) => n,
        ErrorCode::InvalidParams => -32602,
        ErrorCode::MethodNotFound => -32601,
        ErrorCode::InternalError => -32603,
    }
}
impl Rpc {
    pub fn start(node: Arc<Mutex<Node>>, db: Arc<rocksdb::DB>, params: Params) -> Rpc {
        let worker = crate::world::start(&db, &node, &params);
        let n = node.clone();
        let client = JsonRpcClient::local(move |m, p| n.lock().unwrap_or_else(|e| e.into_inner()).answer(m, p));
        let app = App::start(app::Params {
            testnet: params.testnet,
            worker,
            client: Arc::new(NodeClient { actor: client }),
            server_addr: "127.0.0.1:11212".parse().unwrap(),
            session_expires_in: EXPIRES,
            requests_timeout: Duration::from_secs(1),
            consensus_constants: params.consensus_constants.clone(),
        });
        let io = witnet_net::server::ws::take().expect("the server was not started");
        Rpc { node, db, app, io, sinks: Default::default() }
    }
    pub fn call(&self, method: &str, params: Value) -> Result<Value, Error> {
        // What measures time in a data request that is tried out
        static CLOCK: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
        let _in = CLOCK.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_time().build().unwrap()).enter();
        self.io.call(method, object(params))
    }
    pub fn methods(&self) -> Vec<String> {
        self.io.methods()
    }
    pub fn advance(&self, d: Duration) {
        self.app.advance(d)
    }
    pub fn notify(&self, topic: &str, value: Value) {
        self.app.call(NotifySubscriptionTopic { topic: topic.into(), value })
    }
    pub fn block(&self, b: &Block) {
        self.notify("blocks", serde_json::to_value(b).unwrap())
    }
    pub fn superblock(&self, hashes: &[String]) {
        let superblock = witnet_data_structures::chain::SuperBlock::default();
        self.notify("superblocks", json!({"superblock": superblock, "consolidated_block_hashes": hashes}))
    }
    pub fn subscribe(&self, session: &str) -> Result<(), Error> {
        let (id, sink) = self.io.subscribe(object(json!({"session_id": session})))?;
        if id != SubscriptionId::String(session.to_string()) {
            return Err(Error { code: ErrorCode::ServerError(0), message: format!("the subscription is {id:?}"), data: None });
        }
        self.sinks.borrow_mut().insert(session.to_string(), sink);
        Ok(())
    }
    pub fn unsubscribe(&self, session: &str) -> Result<Value, Error> {
        self.io.unsubscribe(SubscriptionId::String(session.to_string()))
    }
    /// What a session was notified of since the last call.
    pub fn notified(&self, session: &str) -> Vec<Value> {
        let s = self.sinks.borrow();
        s.get(session).map(|s| s.take().into_iter().map(Value::from).map(|v| v[0].clone()).collect()).unwrap_or_default()
    }
}
