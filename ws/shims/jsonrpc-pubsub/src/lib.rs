//! The two types of jsonrpc-pubsub that witnet_wallet names. A sink keeps what it was told.
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SubscriptionId {
    Number(u64),
    String(String),
}

#[derive(Debug, Clone, Default)]
pub struct Sink(Arc<Mutex<Vec<jsonrpc_core::Params>>>);
impl Sink {
    pub fn notify(&self, p: jsonrpc_core::Params) -> Result<(), futures01::sync::mpsc::SendError<String>> {
        self.0.lock().unwrap().push(p);
        Ok(())
    }
    /// What was notified since the last call.
    pub fn take(&self) -> Vec<jsonrpc_core::Params> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}

pub trait PubSubMetadata {}
impl PubSubMetadata for () {}
/// One who wants to be notified; `sink` keeps what came of it.
pub struct Subscriber(Arc<Mutex<Option<Result<(SubscriptionId, Sink), jsonrpc_core::Error>>>>);
impl Subscriber {
    pub fn new() -> (Self, Arc<Mutex<Option<Result<(SubscriptionId, Sink), jsonrpc_core::Error>>>>) {
        let r = Arc::new(Mutex::new(None));
        (Subscriber(r.clone()), r)
    }
    pub fn assign_id(self, id: SubscriptionId) -> Result<Sink, ()> {
        self.assign_id_async(id)
    }
    pub fn reject(self, e: jsonrpc_core::Error) -> Result<(), ()> {
        self.reject_async(e)
    }
    pub fn assign_id_async(self, id: SubscriptionId) -> Result<Sink, ()> {
        let s = Sink::default();
        *self.0.lock().unwrap() = Some(Ok((id, s.clone())));
        Ok(s)
    }
    pub fn reject_async(self, e: jsonrpc_core::Error) -> Result<(), ()> {
        *self.0.lock().unwrap() = Some(Err(e));
        Ok(())
    }
}
type On = Box<dyn Fn(jsonrpc_core::Params, (), Subscriber)>;
type Off = Box<dyn Fn(SubscriptionId, Option<()>) -> Result<jsonrpc_core::Value, jsonrpc_core::Error>>;
/// Methods and one pair of methods that subscribe and unsubscribe.
pub struct PubSubHandler<T = (), S = ()> {
    io: jsonrpc_core::MetaIoHandler<T, S>,
    sub: Option<(On, Off)>,
}
impl<T, S> PubSubHandler<T, S> {
    pub fn new(io: jsonrpc_core::MetaIoHandler<T, S>) -> Self {
        PubSubHandler { io, sub: None }
    }
    pub fn add_subscription<F, G, R>(&mut self, _: &str, (_, on): (&str, F), (_, off): (&str, G))
    where
        F: Fn(jsonrpc_core::Params, (), Subscriber) + 'static,
        G: Fn(SubscriptionId, Option<()>) -> R + 'static,
        R: jsonrpc_core::Finish<Result<jsonrpc_core::Value, jsonrpc_core::Error>>,
    {
        self.sub = Some((Box::new(on), Box::new(move |i, m| off(i, m).finish())));
    }
    pub fn subscribe(&self, p: jsonrpc_core::Params) -> Result<(SubscriptionId, Sink), jsonrpc_core::Error> {
        let r = Arc::new(Mutex::new(None));
        self.sub.as_ref().unwrap().0(p, (), Subscriber(r.clone()));
        let r = r.lock().unwrap().take();
        r.expect("a subscriber was neither accepted nor rejected")
    }
    pub fn unsubscribe(&self, id: SubscriptionId) -> Result<jsonrpc_core::Value, jsonrpc_core::Error> {
        self.sub.as_ref().unwrap().1(id, None)
    }
}
impl<T, S> std::ops::Deref for PubSubHandler<T, S> {
    type Target = jsonrpc_core::MetaIoHandler<T, S>;
    fn deref(&self) -> &Self::Target {
        &self.io
    }
}
impl<T, S> std::ops::DerefMut for PubSubHandler<T, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.io
    }
}
