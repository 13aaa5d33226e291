//! Actors under a scheduler: mailboxes, contexts and timers as in actix, all in one thread, with a
//! clock that goes on only when it is told to. Who runs next is decided by `world::choose`, which by
//! default takes who has waited longest, as a single-threaded arbiter does.
use std::{
    any::{Any, TypeId},
    cell::RefCell,
    collections::{HashMap, VecDeque},
    future::Future,
    marker::PhantomData,
    ops::DerefMut,
    pin::Pin,
    rc::Rc,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, Ordering::SeqCst},
    },
    task::{Context as Cx, Poll, Wake, Waker},
    time::Duration,
};

pub trait Message {
    type Result: 'static;
}
impl<M: Message> Message for Arc<M> {
    type Result = M::Result;
}
impl<M: Message> Message for Box<M> {
    type Result = M::Result;
}
pub trait Handler<M: Message>: Actor {
    type Result: MessageResponse<Self, M>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}
pub trait Actor: Sized + Unpin + 'static {
    type Context: ActorContext + Runs<Self>;
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn stopping(&mut self, _ctx: &mut Self::Context) -> Running {
        Running::Stop
    }
    fn stopped(&mut self, _ctx: &mut Self::Context) {}
    fn start(self) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
    {
        world::add(|_| self)
    }
    fn start_default() -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>> + Default,
    {
        Self::default().start()
    }
    fn create<F: FnOnce(&mut Context<Self>) -> Self>(f: F) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
    {
        world::add(f)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Running {
    Stop,
    Continue,
}
pub trait Supervised: Actor {
    fn restarting(&mut self, _ctx: &mut Self::Context) {}
}
pub struct Supervisor;
impl Supervisor {
    pub fn start<A: Supervised + Actor<Context = Context<A>>>(f: impl FnOnce(&mut Context<A>) -> A + 'static) -> Addr<A> {
        world::add(f)
    }
}
pub trait SystemService: Actor<Context = Context<Self>> + Supervised + Default {
    fn service_started(&mut self, _ctx: &mut Context<Self>) {}
    fn start_service(_: &ArbiterHandle) -> Addr<Self> {
        Supervisor::start(|ctx| {
            let mut a = Self::default();
            a.service_started(ctx);
            a
        })
    }
    fn from_registry() -> Addr<Self> {
        if let Some(a) = world::registered::<Self>() {
            return a;
        }
        let a = Self::start_service(&ArbiterHandle);
        SystemRegistry::set(a.clone());
        a
    }
}
pub struct SystemRegistry;
impl SystemRegistry {
    pub fn set<A: Actor>(a: Addr<A>) {
        assert!(!world::registered::<A>().is_some_and(|b| b.connected()), "System service is already running");
        world::register(a)
    }
}

// What handlers return -------------------------------------------------------------------------

pub type Tx<T> = Option<Reply<T>>;
pub trait MessageResponse<A: Actor, M: Message> {
    fn handle(self, ctx: &mut A::Context, tx: Tx<M::Result>);
}
fn reply<T>(tx: Tx<T>, x: T) {
    if let Some(tx) = tx {
        tx.put(x)
    }
}
macro_rules! plain {
    ($($t:ty)*) => {$(
        impl<A: Actor, M: Message<Result = $t>> MessageResponse<A, M> for $t {
            fn handle(self, _: &mut A::Context, tx: Tx<$t>) {
                reply(tx, self)
            }
        }
    )*};
}
plain!(() bool u8 u16 u32 u64 usize i32 i64 String);
impl<A: Actor, T: 'static, E: 'static, M: Message<Result = Result<T, E>>> MessageResponse<A, M> for Result<T, E> {
    fn handle(self, _: &mut A::Context, tx: Tx<Result<T, E>>) {
        reply(tx, self)
    }
}
impl<A: Actor, T: 'static, M: Message<Result = Option<T>>> MessageResponse<A, M> for Option<T> {
    fn handle(self, _: &mut A::Context, tx: Tx<Option<T>>) {
        reply(tx, self)
    }
}
impl<A: Actor, T: 'static, M: Message<Result = Vec<T>>> MessageResponse<A, M> for Vec<T> {
    fn handle(self, _: &mut A::Context, tx: Tx<Vec<T>>) {
        reply(tx, self)
    }
}
pub struct MessageResult<M: Message>(pub M::Result);
impl<A: Actor, M: Message> MessageResponse<A, M> for MessageResult<M> {
    fn handle(self, _: &mut A::Context, tx: Tx<M::Result>) {
        reply(tx, self.0)
    }
}
pub type ResponseFuture<T> = Pin<Box<dyn Future<Output = T>>>;
impl<A: Actor, T: 'static, M: Message<Result = T>> MessageResponse<A, M> for ResponseFuture<T> {
    fn handle(self, _: &mut A::Context, tx: Tx<T>) {
        spawn(async move { reply(tx, self.await) });
    }
}
pub type ResponseActFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;
impl<A: Actor<Context = Context<A>>, T: 'static, M: Message<Result = T>> MessageResponse<A, M> for ResponseActFuture<A, T> {
    fn handle(self, ctx: &mut Context<A>, tx: Tx<T>) {
        ctx.spawn(self.map(move |x, _, _| reply(tx, x)));
    }
}
pub enum Response<T> {
    Now(T),
    Later(ResponseFuture<T>),
}

// Mailboxes --------------------------------------------------------------------------------------

struct ReplyState<T> {
    done: Option<Result<T, MailboxError>>,
    waker: Option<Waker>,
}
/// Where the result of a message goes. If it is dropped, the asker is told so.
pub struct Reply<T>(Arc<Mutex<ReplyState<T>>>);
impl<T> Reply<T> {
    fn new() -> (Reply<T>, Request<T>) {
        let s = Arc::new(Mutex::new(ReplyState { done: None, waker: None }));
        (Reply(s.clone()), Request(s))
    }
    pub fn send(self, x: T) -> Result<(), T> {
        self.put(x);
        Ok(())
    }
    pub fn put(self, x: T) {
        let mut s = self.0.lock().unwrap();
        s.done = Some(Ok(x));
        if let Some(w) = s.waker.take() {
            w.wake()
        }
    }
}
impl<T> Drop for Reply<T> {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        if s.done.is_none() {
            s.done = Some(Err(MailboxError::Closed));
            if let Some(w) = s.waker.take() {
                w.wake()
            }
        }
    }
}
pub struct Request<T>(Arc<Mutex<ReplyState<T>>>);
impl<T> Future for Request<T> {
    type Output = Result<T, MailboxError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        match s.done.take() {
            Some(x) => Poll::Ready(x),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl std::fmt::Debug for MailboxError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "MailboxError({self})")
    }
}
#[derive(Clone, Copy, PartialEq, Eq, thiserror::Error)]
pub enum MailboxError {
    #[error("Mailbox has closed")]
    Closed,
    #[error("Message delivery timed out")]
    Timeout,
}

pub struct Addr<A>(usize, PhantomData<fn(A) -> A>);
impl<A> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Addr(self.0, PhantomData)
    }
}
impl<A> PartialEq for Addr<A> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<A> Eq for Addr<A> {}
impl<A> std::hash::Hash for Addr<A> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<A> std::fmt::Debug for Addr<A> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Addr({})", self.0)
    }
}
impl<A: Actor> Addr<A> {
    pub fn id(&self) -> usize {
        self.0
    }
    pub fn connected(&self) -> bool {
        world::alive(self.0)
    }
    pub fn send<M: Message + 'static>(&self, msg: M) -> Request<M::Result>
    where
        A: Handler<M>,
    {
        let (tx, rx) = Reply::new();
        world::post::<A, M>(self.0, msg, Some(tx));
        rx
    }
    pub fn do_send<M: Message + 'static>(&self, msg: M)
    where
        A: Handler<M>,
    {
        world::post::<A, M>(self.0, msg, None);
    }
    pub fn try_send<M: Message + 'static>(&self, msg: M) -> Result<(), MailboxError>
    where
        A: Handler<M>,
    {
        self.do_send(msg);
        Ok(())
    }
    pub fn recipient<M: Message + 'static>(self) -> Recipient<M>
    where
        A: Handler<M>,
    {
        Recipient(self.0, Arc::new(move |m, tx| world::post::<A, M>(self.0, m, tx)))
    }
}
pub struct Recipient<M: Message>(usize, Arc<dyn Fn(M, Tx<M::Result>) + Send + Sync>);
impl<M: Message> Clone for Recipient<M> {
    fn clone(&self) -> Self {
        Recipient(self.0, self.1.clone())
    }
}
impl<M: Message> std::fmt::Debug for Recipient<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Recipient({})", self.0)
    }
}
impl<M: Message> Recipient<M> {
    pub fn do_send(&self, m: M) {
        (self.1)(m, None)
    }
    pub fn send(&self, m: M) -> Request<M::Result> {
        let (tx, rx) = Reply::new();
        (self.1)(m, Some(tx));
        rx
    }
}

// Contexts ---------------------------------------------------------------------------------------

/// A context can say whether something is in the way of the next message, and go on with it.
pub trait Runs<A: Actor>: 'static {
    fn new(id: usize) -> Self;
    fn run(actor: &mut A, ctx: &mut Self, waker: &Waker, next: &mut dyn FnMut(&mut A, &mut Self) -> bool);
    fn stopped(&self) -> bool {
        false
    }
}
pub struct SyncContext<A>(PhantomData<fn() -> A>);
impl<A> ActorContext for SyncContext<A> {
    fn stop(&mut self) {}
    fn terminate(&mut self) {}
}
impl<A: Actor<Context = SyncContext<A>>> Runs<A> for SyncContext<A> {
    fn new(_: usize) -> Self {
        SyncContext(PhantomData)
    }
    fn run(actor: &mut A, ctx: &mut Self, _: &Waker, next: &mut dyn FnMut(&mut A, &mut Self) -> bool) {
        while next(actor, ctx) {}
    }
}
pub trait ActorContext {
    fn stop(&mut self);
    fn terminate(&mut self);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct SpawnHandle(usize);
type Boxed<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;
pub struct Context<A: Actor> {
    id: usize,
    spawned: Vec<(SpawnHandle, Boxed<A, ()>)>,
    waits: Vec<Boxed<A, ()>>,
    last: usize,
    cancelled: Vec<SpawnHandle>,
    stopping: bool,
    stopped: bool,
    _p: PhantomData<fn(A) -> A>,
}
impl<A: Actor<Context = Context<A>>> ActorContext for Context<A> {
    fn stop(&mut self) {
        self.stopping = true
    }
    fn terminate(&mut self) {
        self.stopped = true
    }
}
impl<A: Actor<Context = Context<A>>> Runs<A> for Context<A> {
    fn new(id: usize) -> Self {
        Context { id, spawned: vec![], waits: vec![], last: 0, cancelled: vec![], stopping: false, stopped: false, _p: PhantomData }
    }
    fn stopped(&self) -> bool {
        self.stopped
    }
    fn run(actor: &mut A, ctx: &mut Self, waker: &Waker, next: &mut dyn FnMut(&mut A, &mut Self) -> bool) {
        let mut cx = Cx::from_waker(waker);
        'again: loop {
            // What the actor waits for comes first, the latest of it before the others
            while !ctx.waits.is_empty() && !ctx.done() {
                let mut f = ctx.waits.pop().unwrap();
                let under = ctx.waits.len();
                if f.as_mut().poll(actor, ctx, &mut cx).is_pending() {
                    ctx.waits.insert(under, f);
                    if ctx.waits.len() > under + 1 {
                        continue;
                    }
                    return;
                }
            }
            // Then what is in the mailbox
            while !ctx.done() && ctx.waits.is_empty() && next(actor, ctx) {}
            if !ctx.waits.is_empty() && !ctx.done() {
                continue;
            }
            // Then what was spawned
            let mut i = 0;
            while i < ctx.spawned.len() && !ctx.done() {
                let (h, mut f) = ctx.spawned.swap_remove(i);
                if ctx.cancelled.contains(&h) {
                    continue;
                }
                let p = f.as_mut().poll(actor, ctx, &mut cx);
                if p.is_pending() {
                    // It goes back to where it was
                    ctx.spawned.push((h, f));
                    let n = ctx.spawned.len() - 1;
                    ctx.spawned.swap(i, n);
                    i += 1;
                }
                if !ctx.waits.is_empty() && !ctx.done() {
                    continue 'again;
                }
            }
            if ctx.stopping && !ctx.stopped {
                if actor.stopping(ctx) == Running::Stop {
                    ctx.stopped = true;
                } else {
                    ctx.stopping = false;
                }
            }
            if ctx.stopped {
                ctx.spawned.clear();
                ctx.waits.clear();
                actor.stopped(ctx);
            }
            return;
        }
    }
}
impl<A: Actor<Context = Context<A>>> Context<A> {
    fn done(&self) -> bool {
        self.stopping || self.stopped
    }
    /// A context of nobody.
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        <Self as Runs<A>>::new(usize::MAX)
    }
    /// How many futures the actor waits for, and how many others go on meanwhile.
    pub fn pending(&self) -> (usize, usize) {
        (self.waits.len(), self.spawned.len())
    }
}
pub trait AsyncContext<A: Actor<Context = Self>>: ActorContext + Sized {
    fn address(&self) -> Addr<A>;
    fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) -> SpawnHandle;
    fn wait<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F);
    fn waiting(&self) -> bool;
    fn cancel_future(&mut self, h: SpawnHandle) -> bool;
    fn run_later<F: FnOnce(&mut A, &mut Self) + 'static>(&mut self, d: Duration, f: F) -> SpawnHandle;
    fn run_interval<F: FnMut(&mut A, &mut Self) + 'static>(&mut self, d: Duration, f: F) -> SpawnHandle;
    fn notify<M: Message + 'static>(&mut self, m: M)
    where
        A: Handler<M>,
    {
        self.address().do_send(m)
    }
    fn notify_later<M: Message + 'static>(&mut self, m: M, d: Duration) -> SpawnHandle
    where
        A: Handler<M>,
    {
        self.run_later(d, move |_, ctx| ctx.notify(m))
    }
    fn add_stream<S: futures::Stream + 'static>(&mut self, s: S) -> SpawnHandle
    where
        A: StreamHandler<S::Item>;
    fn add_message_stream<S: futures::Stream + 'static>(&mut self, s: S)
    where
        S::Item: Message,
        A: Handler<S::Item>,
    {
        let a = self.address();
        let mut s = Box::pin(s);
        self.spawn(fut::wrap_future(futures::future::poll_fn(move |cx| {
            loop {
                match s.as_mut().poll_next(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(None) => return Poll::Ready(()),
                    Poll::Ready(Some(m)) => a.do_send(m),
                }
            }
        })));
    }
}
impl<A: Actor<Context = Context<A>>> AsyncContext<A> for Context<A> {
    fn address(&self) -> Addr<A> {
        Addr(self.id, PhantomData)
    }
    fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) -> SpawnHandle {
        self.last += 1;
        self.spawned.push((SpawnHandle(self.last), Box::pin(f)));
        world::wake(self.id);
        SpawnHandle(self.last)
    }
    fn wait<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) {
        self.waits.push(Box::pin(f));
        world::wake(self.id);
    }
    fn waiting(&self) -> bool {
        !self.waits.is_empty() || self.done()
    }
    fn add_stream<S: futures::Stream + 'static>(&mut self, s: S) -> SpawnHandle
    where
        A: StreamHandler<S::Item>,
    {
        self.spawn(StreamOf(Box::pin(s), false, PhantomData))
    }
    fn cancel_future(&mut self, h: SpawnHandle) -> bool {
        self.cancelled.push(h);
        true
    }
    fn run_later<F: FnOnce(&mut A, &mut Self) + 'static>(&mut self, d: Duration, f: F) -> SpawnHandle {
        let mut f = Some(f);
        self.spawn(clock::sleep(d).into_actor_().map(move |(), a, c| {
            if let Some(f) = f.take() {
                f(a, c)
            }
        }))
    }
    fn run_interval<F: FnMut(&mut A, &mut Self) + 'static>(&mut self, d: Duration, f: F) -> SpawnHandle {
        self.spawn(Interval(f, d, clock::sleep(d)))
    }
}
struct Interval<F>(F, Duration, clock::Sleep);
impl<A: Actor, F: FnMut(&mut A, &mut A::Context) + 'static> ActorFuture<A> for Interval<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        // SAFETY: nothing is moved out of a field, and none is pinned
        let s = unsafe { self.get_unchecked_mut() };
        while Pin::new(&mut s.2).poll(cx).is_ready() {
            (s.0)(actor, ctx);
            s.2 = clock::sleep(s.1);
        }
        Poll::Pending
    }
}
struct StreamOf<S, A>(Pin<Box<S>>, bool, PhantomData<fn(A)>);
impl<A: Actor<Context = Context<A>> + StreamHandler<S::Item>, S: futures::Stream> ActorFuture<A> for StreamOf<S, A> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        if !self.1 {
            self.1 = true;
            StreamHandler::started(actor, ctx);
        }
        loop {
            if ctx.waiting() {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            match self.0.as_mut().poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => {
                    StreamHandler::finished(actor, ctx);
                    return Poll::Ready(());
                }
                Poll::Ready(Some(x)) => StreamHandler::handle(actor, x, ctx),
            }
        }
    }
}
pub trait StreamHandler<I>: Actor {
    fn handle(&mut self, item: I, ctx: &mut Self::Context);
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn finished(&mut self, ctx: &mut Self::Context) {
        ctx.stop()
    }
    fn add_stream<S: futures::Stream<Item = I> + 'static>(s: S, ctx: &mut Self::Context) -> SpawnHandle
    where
        Self: Actor<Context = Context<Self>>,
    {
        ctx.add_stream(s)
    }
}

// Arbiters and systems ----------------------------------------------------------------------------

pub fn spawn<F: Future<Output = ()> + 'static>(f: F) {
    world::task(Box::pin(f))
}
pub struct SyncArbiter;
impl SyncArbiter {
    pub fn start<A: Actor<Context = SyncContext<A>>>(_: usize, factory: impl Fn() -> A + 'static) -> Addr<A> {
        world::add(|_| factory())
    }
}
pub struct Arbiter;
pub struct ArbiterHandle;
impl Arbiter {
    pub fn new() -> Arbiter {
        Arbiter
    }
    pub fn current() -> ArbiterHandle {
        ArbiterHandle
    }
    pub fn spawn<F: Future<Output = ()> + 'static>(&self, f: F) -> bool {
        spawn(f);
        true
    }
}
impl ArbiterHandle {
    pub fn spawn<F: Future<Output = ()> + 'static>(&self, f: F) -> bool {
        spawn(f);
        true
    }
}
#[derive(Debug, Clone)]
pub struct System;
pub struct SystemRunner;
impl System {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> SystemRunner {
        world::reset();
        SystemRunner
    }
    pub fn current() -> System {
        System
    }
    pub fn try_current() -> Option<System> {
        Some(System)
    }
    pub fn stop(&self) {
        self.stop_with_code(0)
    }
    pub fn stop_with_code(&self, code: i32) {
        world::stop(code)
    }
}
impl SystemRunner {
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        world::block_on(f)
    }
    pub fn run(self) -> std::io::Result<()> {
        match world::stop_code() {
            None | Some(0) => Ok(()),
            Some(c) => Err(std::io::Error::other(format!("Non-zero exit code: {c}"))),
        }
    }
}

// Futures that are given their actor --------------------------------------------------------------

pub trait ActorFuture<A: Actor> {
    type Output;
    fn poll(self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output>;
}
impl<A: Actor, P: Unpin + DerefMut> ActorFuture<A> for Pin<P>
where
    P::Target: ActorFuture<A>,
{
    type Output = <P::Target as ActorFuture<A>>::Output;
    fn poll(self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output> {
        self.get_mut().as_mut().poll(actor, ctx, task)
    }
}
impl<A: Actor, F: ActorFuture<A> + Unpin + ?Sized> ActorFuture<A> for Box<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output> {
        Pin::new(&mut **self).poll(actor, ctx, task)
    }
}
impl<A: Actor, T> ActorFuture<A> for futures::future::Ready<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, task: &mut Cx<'_>) -> Poll<T> {
        Future::poll(self, task)
    }
}
impl<A: Actor, L: ActorFuture<A>, R: ActorFuture<A, Output = L::Output>> ActorFuture<A> for futures::future::Either<L, R> {
    type Output = L::Output;
    fn poll(self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output> {
        match self.as_pin_mut() {
            futures::future::Either::Left(l) => l.poll(actor, ctx, task),
            futures::future::Either::Right(r) => r.poll(actor, ctx, task),
        }
    }
}

pub mod fut {
    use super::*;
    pub use super::{ActorFuture, ActorFutureExt, ActorStream, ActorStreamExt, ActorTryFutureExt, ContextFutureSpawner, WrapFuture, WrapStream};
    pub use futures::future::Either;
    pub type LocalBoxActorFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;
    /// A future that is there already.
    pub struct Ready<T>(pub(super) Option<T>);
    pub fn ready<T>(x: T) -> Ready<T> {
        Ready(Some(x))
    }
    pub fn result<T, E>(r: Result<T, E>) -> Ready<Result<T, E>> {
        Ready(Some(r))
    }
    pub fn ok<T, E>(x: T) -> Ready<Result<T, E>> {
        Ready(Some(Ok(x)))
    }
    pub fn err<T, E>(e: E) -> Ready<Result<T, E>> {
        Ready(Some(Err(e)))
    }
    impl<T> Unpin for Ready<T> {}
    impl<A: Actor, T> ActorFuture<A> for Ready<T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, _: &mut Cx<'_>) -> Poll<T> {
            Poll::Ready(self.0.take().expect("polled after completion"))
        }
    }
    impl<T> Future for Ready<T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<T> {
            Poll::Ready(self.0.take().expect("polled after completion"))
        }
    }
    pub fn wrap_future<F: Future, A: Actor>(f: F) -> Wrapped<F, A> {
        Wrapped(Box::pin(f), PhantomData)
    }
    pub fn wrap_stream<S: futures::Stream, A: Actor>(s: S) -> WrappedStream<S, A> {
        WrappedStream(Box::pin(s), PhantomData)
    }
}

pub struct Wrapped<F, A>(Pin<Box<F>>, PhantomData<fn() -> A>);
impl<A: Actor, F: Future> ActorFuture<A> for Wrapped<F, A> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, task: &mut Cx<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(task)
    }
}
pub trait WrapFuture<A: Actor>: Future + Sized {
    fn into_actor(self, _: &A) -> Wrapped<Self, A> {
        Wrapped(Box::pin(self), PhantomData)
    }
}
impl<A: Actor, F: Future> WrapFuture<A> for F {}
trait IntoActor: Future + Sized {
    fn into_actor_<A>(self) -> Wrapped<Self, A> {
        Wrapped(Box::pin(self), PhantomData)
    }
}
impl<F: Future> IntoActor for F {}

/// A future, and another made out of its result.
pub struct Then<A: Actor, T, F, G>(Option<(Boxed<A, T>, F)>, Option<Pin<Box<G>>>);
impl<A: Actor, T, F, G> Unpin for Then<A, T, F, G> {}
impl<A: Actor, T, F, G> ActorFuture<A> for Then<A, T, F, G>
where
    F: FnOnce(T, &mut A, &mut A::Context) -> G,
    G: ActorFuture<A>,
{
    type Output = G::Output;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<G::Output> {
        if let Some((first, _)) = &mut self.0 {
            match first.as_mut().poll(actor, ctx, task) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(x) => {
                    let f = self.0.take().unwrap().1;
                    self.1 = Some(Box::pin(f(x, actor, ctx)));
                }
            }
        }
        self.1.as_mut().unwrap().as_mut().poll(actor, ctx, task)
    }
}
pub struct Map<A: Actor, T, F>(Boxed<A, T>, Option<F>);
impl<A: Actor, T, F> Unpin for Map<A, T, F> {}
impl<A: Actor, T, U, F: FnOnce(T, &mut A, &mut A::Context) -> U> ActorFuture<A> for Map<A, T, F> {
    type Output = U;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<U> {
        match self.0.as_mut().poll(actor, ctx, task) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(x) => Poll::Ready(self.1.take().unwrap()(x, actor, ctx)),
        }
    }
}
pub struct Timeout<A: Actor, T>(Boxed<A, T>, clock::Sleep);
impl<A: Actor, T> ActorFuture<A> for Timeout<A, T> {
    type Output = Result<T, ()>;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Result<T, ()>> {
        match self.0.as_mut().poll(actor, ctx, task) {
            Poll::Ready(x) => Poll::Ready(Ok(x)),
            Poll::Pending => Pin::new(&mut self.1).poll(task).map(Err),
        }
    }
}
pub trait ActorFutureExt<A: Actor>: ActorFuture<A> + Sized + 'static {
    fn map<U, F: FnOnce(Self::Output, &mut A, &mut A::Context) -> U>(self, f: F) -> Map<A, Self::Output, F> {
        Map(Box::pin(self), Some(f))
    }
    fn then<G: ActorFuture<A>, F: FnOnce(Self::Output, &mut A, &mut A::Context) -> G>(self, f: F) -> Then<A, Self::Output, F, G> {
        Then(Some((Box::pin(self), f)), None)
    }
    fn timeout(self, d: Duration) -> Timeout<A, Self::Output> {
        Timeout(Box::pin(self), clock::sleep(d))
    }
    fn boxed_local(self) -> Boxed<A, Self::Output> {
        Box::pin(self)
    }
}
impl<A: Actor, F: ActorFuture<A> + 'static> ActorFutureExt<A> for F {}

pub struct MapOk<A: Actor, T, E, F>(Boxed<A, Result<T, E>>, Option<F>);
impl<A: Actor, T, E, F> Unpin for MapOk<A, T, E, F> {}
impl<A: Actor, T, E, U, F: FnOnce(T, &mut A, &mut A::Context) -> U> ActorFuture<A> for MapOk<A, T, E, F> {
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Result<U, E>> {
        match self.0.as_mut().poll(actor, ctx, task) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(x)) => Poll::Ready(Ok(self.1.take().unwrap()(x, actor, ctx))),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }
    }
}
pub struct MapErr<A: Actor, T, E, F>(Boxed<A, Result<T, E>>, Option<F>);
impl<A: Actor, T, E, F> Unpin for MapErr<A, T, E, F> {}
impl<A: Actor, T, E, U, F: FnOnce(E, &mut A, &mut A::Context) -> U> ActorFuture<A> for MapErr<A, T, E, F> {
    type Output = Result<T, U>;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Result<T, U>> {
        match self.0.as_mut().poll(actor, ctx, task) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(x)) => Poll::Ready(Ok(x)),
            Poll::Ready(Err(e)) => Poll::Ready(Err(self.1.take().unwrap()(e, actor, ctx))),
        }
    }
}
pub struct AndThen<A: Actor, T, E, F, G>(Option<(Boxed<A, Result<T, E>>, F)>, Option<Pin<Box<G>>>);
impl<A: Actor, T, E, F, G> Unpin for AndThen<A, T, E, F, G> {}
impl<A: Actor, T, E, U, F, G> ActorFuture<A> for AndThen<A, T, E, F, G>
where
    F: FnOnce(T, &mut A, &mut A::Context) -> G,
    G: ActorFuture<A, Output = Result<U, E>>,
{
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Result<U, E>> {
        if let Some((first, _)) = &mut self.0 {
            match first.as_mut().poll(actor, ctx, task) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(x)) => {
                    let f = self.0.take().unwrap().1;
                    self.1 = Some(Box::pin(f(x, actor, ctx)));
                }
            }
        }
        self.1.as_mut().unwrap().as_mut().poll(actor, ctx, task)
    }
}
pub trait ActorTryFutureExt<A: Actor, T, E>: ActorFuture<A, Output = Result<T, E>> + Sized + 'static {
    fn map_ok<U, F: FnOnce(T, &mut A, &mut A::Context) -> U>(self, f: F) -> MapOk<A, T, E, F> {
        MapOk(Box::pin(self), Some(f))
    }
    fn map_err<U, F: FnOnce(E, &mut A, &mut A::Context) -> U>(self, f: F) -> MapErr<A, T, E, F> {
        MapErr(Box::pin(self), Some(f))
    }
    fn and_then<U, G: ActorFuture<A, Output = Result<U, E>>, F: FnOnce(T, &mut A, &mut A::Context) -> G>(self, f: F) -> AndThen<A, T, E, F, G> {
        AndThen(Some((Box::pin(self), f)), None)
    }
}
impl<A: Actor, T, E, F: ActorFuture<A, Output = Result<T, E>> + 'static> ActorTryFutureExt<A, T, E> for F {}

pub trait ContextFutureSpawner<A: Actor> {
    fn spawn(self, ctx: &mut Context<A>);
    fn wait(self, ctx: &mut Context<A>);
}
impl<A: Actor<Context = Context<A>>, F: ActorFuture<A, Output = ()> + 'static> ContextFutureSpawner<A> for F {
    fn spawn(self, ctx: &mut Context<A>) {
        ctx.spawn(self);
    }
    fn wait(self, ctx: &mut Context<A>) {
        ctx.wait(self)
    }
}

/// A stream that is given its actor.
pub trait ActorStream<A: Actor> {
    type Item;
    fn poll_next(self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Option<Self::Item>>;
}
pub struct WrappedStream<S, A>(Pin<Box<S>>, PhantomData<fn() -> A>);
impl<A: Actor, S: futures::Stream> ActorStream<A> for WrappedStream<S, A> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, task: &mut Cx<'_>) -> Poll<Option<S::Item>> {
        self.0.as_mut().poll_next(task)
    }
}
pub trait WrapStream<A: Actor>: futures::Stream + Sized {
    fn into_actor(self, _: &A) -> WrappedStream<Self, A> {
        WrappedStream(Box::pin(self), PhantomData)
    }
}
impl<A: Actor, S: futures::Stream> WrapStream<A> for S {}
pub struct StreamMap<S, F>(Pin<Box<S>>, F);
impl<S, F> Unpin for StreamMap<S, F> {}
impl<A: Actor, S: ActorStream<A>, U, F: FnMut(S::Item, &mut A, &mut A::Context) -> U> ActorStream<A> for StreamMap<S, F> {
    type Item = U;
    fn poll_next(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Option<U>> {
        let s = &mut *self;
        s.0.as_mut().poll_next(actor, ctx, task).map(|x| x.map(|x| (s.1)(x, actor, ctx)))
    }
}
pub struct StreamThen<S, F, G>(Pin<Box<S>>, F, Option<Pin<Box<G>>>);
impl<S, F, G> Unpin for StreamThen<S, F, G> {}
impl<A: Actor, S: ActorStream<A>, G: ActorFuture<A>, F: FnMut(S::Item, &mut A, &mut A::Context) -> G> ActorStream<A> for StreamThen<S, F, G> {
    type Item = G::Output;
    fn poll_next(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Option<G::Output>> {
        let s = &mut *self;
        loop {
            if let Some(g) = &mut s.2 {
                return g.as_mut().poll(actor, ctx, task).map(|x| {
                    s.2 = None;
                    Some(x)
                });
            }
            match s.0.as_mut().poll_next(actor, ctx, task) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(None),
                Poll::Ready(Some(x)) => s.2 = Some(Box::pin((s.1)(x, actor, ctx))),
            }
        }
    }
}
pub struct Fold<S, F, G, T>(Pin<Box<S>>, F, Option<T>, Option<Pin<Box<G>>>);
impl<S, F, G, T> Unpin for Fold<S, F, G, T> {}
impl<A: Actor, S: ActorStream<A>, T, G: ActorFuture<A, Output = T>, F: FnMut(T, S::Item, &mut A, &mut A::Context) -> G> ActorFuture<A> for Fold<S, F, G, T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<T> {
        let s = &mut *self;
        loop {
            if let Some(g) = &mut s.3 {
                match g.as_mut().poll(actor, ctx, task) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(x) => {
                        s.2 = Some(x);
                        s.3 = None;
                    }
                }
            }
            match s.0.as_mut().poll_next(actor, ctx, task) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(s.2.take().unwrap()),
                Poll::Ready(Some(x)) => {
                    let t = s.2.take().unwrap();
                    s.3 = Some(Box::pin((s.1)(t, x, actor, ctx)));
                }
            }
        }
    }
}
pub struct Finish<S>(Pin<Box<S>>);
impl<A: Actor, S: ActorStream<A>> ActorFuture<A> for Finish<S> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<()> {
        loop {
            match self.0.as_mut().poll_next(actor, ctx, task) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(()),
                Poll::Ready(Some(_)) => {}
            }
        }
    }
}
pub trait ActorStreamExt<A: Actor>: ActorStream<A> + Sized {
    fn map<U, F: FnMut(Self::Item, &mut A, &mut A::Context) -> U>(self, f: F) -> StreamMap<Self, F> {
        StreamMap(Box::pin(self), f)
    }
    fn then<G: ActorFuture<A>, F: FnMut(Self::Item, &mut A, &mut A::Context) -> G>(self, f: F) -> StreamThen<Self, F, G> {
        StreamThen(Box::pin(self), f, None)
    }
    fn fold<T, G: ActorFuture<A, Output = T>, F: FnMut(T, Self::Item, &mut A, &mut A::Context) -> G>(self, t: T, f: F) -> Fold<Self, F, G, T> {
        Fold(Box::pin(self), f, Some(t), None)
    }
    fn finish(self) -> Finish<Self> {
        Finish(Box::pin(self))
    }
}
impl<A: Actor, S: ActorStream<A>> ActorStreamExt<A> for S {}

pub mod clock {
    use super::*;
    #[derive(Debug)]
    pub struct Sleep(Duration);
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(world::now() + d)
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
            if world::now() >= self.0 {
                Poll::Ready(())
            } else {
                world::timer(self.0, cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// What is written to a peer.
pub mod io {
    use super::*;
    pub trait WriteHandler<E> {
        fn error(&mut self, _err: E, _ctx: &mut <Self as Actor>::Context) -> Running
        where
            Self: Actor,
        {
            Running::Stop
        }
        fn finished(&mut self, ctx: &mut <Self as Actor>::Context)
        where
            Self: Actor,
        {
            ctx.stop()
        }
    }
    /// Where bytes go.
    pub trait Wire {
        fn put(&mut self, b: &[u8]);
        fn close(&mut self);
    }
    pub trait Encoder<I> {
        type Error: From<std::io::Error>;
        fn encode(&mut self, item: I, dst: &mut bytes::BytesMut) -> Result<(), Self::Error>;
    }
    pub struct FramedWrite<I, T, U> {
        to: T,
        codec: U,
        _p: PhantomData<fn(I)>,
    }
    impl<I, T: Wire, U: Encoder<I>> FramedWrite<I, T, U> {
        pub fn new<A, C>(to: T, codec: U, _: &mut C) -> Self
        where
            A: Actor<Context = C> + WriteHandler<U::Error>,
            C: AsyncContext<A>,
        {
            FramedWrite { to, codec, _p: PhantomData }
        }
        pub fn write(&mut self, i: I) {
            let mut b = bytes::BytesMut::new();
            if self.codec.encode(i, &mut b).is_ok() {
                self.to.put(&b)
            }
        }
        pub fn close(&mut self) {
            self.to.close()
        }
    }
}

/// The scheduler.
pub mod world {
    use super::*;
    use std::panic::{AssertUnwindSafe, catch_unwind};
    struct Flag(AtomicBool, usize);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            if !self.0.swap(true, SeqCst) {
                enqueue(self.1)
            }
        }
    }
    enum Body {
        Actor(Rc<dyn Slot>),
        Task(Option<Pin<Box<dyn Future<Output = ()>>>>),
        Gone,
    }
    struct Entry {
        node: usize,
        flag: Arc<Flag>,
        body: Body,
        name: &'static str,
    }
    #[derive(Default)]
    struct World {
        now: Duration,
        node: usize,
        entries: Vec<Entry>,
        ready: VecDeque<usize>,
        registry: HashMap<(usize, TypeId), usize>,
        timers: Vec<(Duration, Waker)>,
        stopped: Option<i32>,
        steps: u64,
        panics: u64,
    }
    thread_local! {
        static W: RefCell<World> = RefCell::default();
    }
    fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
        W.with(|x| f(&mut x.borrow_mut()))
    }
    fn enqueue(i: usize) {
        let _ = W.try_with(|x| {
            if let Ok(mut x) = x.try_borrow_mut() {
                x.ready.push_back(i)
            }
        });
    }
    trait Slot {
        fn run(&self, waker: &Waker) -> bool;
        fn any(&self) -> &dyn Any;
    }
    type Mail<A> = Box<dyn FnOnce(&mut A, &mut <A as Actor>::Context)>;
    struct Cell<A: Actor> {
        inner: RefCell<(Option<A>, A::Context)>,
        mail: RefCell<VecDeque<(&'static str, Mail<A>)>>,
        started: std::cell::Cell<bool>,
    }
    impl<A: Actor> Slot for Cell<A> {
        fn run(&self, waker: &Waker) -> bool {
            let mut i = self.inner.borrow_mut();
            let (a, c) = &mut *i;
            let Some(a) = a else { return false };
            // An actor starts the first time it is its turn
            if !self.started.replace(true) {
                a.started(c)
            }
            A::Context::run(a, c, waker, &mut |a, c| {
                let m = self.mail.borrow_mut().pop_front();
                match m {
                    Some((_, f)) => {
                        f(a, c);
                        true
                    }
                    None => false,
                }
            });
            if c.stopped() {
                let a = i.0.take();
                drop(i);
                drop(a);
                return false;
            }
            true
        }
        fn any(&self) -> &dyn Any {
            self
        }
    }
    fn entry(name: &'static str, body: Body) -> usize {
        w(|w| {
            let i = w.entries.len();
            w.entries.push(Entry { node: w.node, flag: Arc::new(Flag(AtomicBool::new(true), i)), body, name });
            w.ready.push_back(i);
            i
        })
    }
    pub(super) fn add<A: Actor>(f: impl FnOnce(&mut A::Context) -> A) -> Addr<A> {
        let i = entry(std::any::type_name::<A>(), Body::Gone);
        let mut ctx = A::Context::new(i);
        let actor = f(&mut ctx);
        let cell = Rc::new(Cell::<A> { inner: RefCell::new((Some(actor), ctx)), mail: RefCell::default(), started: false.into() });
        w(|w| w.entries[i].body = Body::Actor(cell));
        Addr(i, PhantomData)
    }
    pub(super) fn task(f: Pin<Box<dyn Future<Output = ()>>>) {
        entry("task", Body::Task(Some(f)));
    }
    fn slot(i: usize) -> Option<Rc<dyn Slot>> {
        w(|w| match &w.entries.get(i)?.body {
            Body::Actor(s) => Some(s.clone()),
            _ => None,
        })
    }
    pub(super) fn alive(i: usize) -> bool {
        slot(i).is_some()
    }
    pub(super) fn post<A: Handler<M>, M: Message + 'static>(i: usize, m: M, tx: Tx<M::Result>) {
        // Where nobody is any more, the message is lost and its sender told so
        let Some(s) = slot(i) else { return };
        let c = s.any().downcast_ref::<Cell<A>>().expect("an address of another kind of actor");
        c.mail.borrow_mut().push_back((std::any::type_name::<M>(), Box::new(move |a: &mut A, ctx: &mut A::Context| a.handle(m, ctx).handle(ctx, tx))));
        wake(i);
    }
    pub(super) fn wake(i: usize) {
        let f = w(|w| w.entries.get(i).map(|e| e.flag.clone()));
        if let Some(f) = f {
            f.wake()
        }
    }
    pub(super) fn registered<A: Actor>() -> Option<Addr<A>> {
        w(|w| w.registry.get(&(w.node, TypeId::of::<A>())).map(|i| Addr(*i, PhantomData)))
    }
    pub(super) fn register<A: Actor>(a: Addr<A>) {
        w(|w| w.registry.insert((w.node, TypeId::of::<A>()), a.0));
    }
    pub(super) fn timer(at: Duration, k: Waker) {
        w(|w| w.timers.push((at, k)));
    }
    pub(super) fn stop(code: i32) {
        w(|w| w.stopped = w.stopped.or(Some(code)));
    }
    /// Whether the system was stopped, and how.
    pub fn stop_code() -> Option<i32> {
        w(|w| w.stopped)
    }
    /// Starts afresh: everybody is gone, and nothing is in any mailbox.
    pub fn reset() {
        let mut old = W.with(|x| std::mem::take(&mut *x.borrow_mut()));
        // The storage manager sleeps when it goes: it is left where it is
        for e in &mut old.entries {
            if e.name.ends_with("::StorageManager") {
                std::mem::forget(std::mem::replace(&mut e.body, Body::Gone))
            }
        }
        // Whoever goes may still want to say something
        drop(old);
        W.with(|x| drop(std::mem::take(&mut *x.borrow_mut())));
    }
    /// From now on everything that starts belongs to this node (a registry each).
    pub fn set_node(n: usize) {
        w(|w| w.node = n)
    }
    /// Whose turn it is, or was last.
    pub fn node() -> usize {
        w(|w| w.node)
    }
    /// Everybody of this node is gone, without a word.
    pub fn kill(n: usize) {
        let old: Vec<Body> = w(|w| {
            w.registry.retain(|k, _| k.0 != n);
            let mut v = vec![];
            for e in w.entries.iter_mut().filter(|e| e.node == n) {
                let b = std::mem::replace(&mut e.body, Body::Gone);
                if e.name.ends_with("::StorageManager") {
                    std::mem::forget(b)
                } else {
                    v.push(b)
                }
            }
            v
        });
        drop(old)
    }
    pub fn now() -> Duration {
        w(|w| w.now)
    }
    /// How many tasks ended in a panic.
    pub fn panics() -> u64 {
        w(|w| w.panics)
    }
    pub fn steps() -> u64 {
        w(|w| w.steps)
    }
    /// Who can go on: (who, its node, its name).
    pub fn runnable() -> Vec<(usize, usize, &'static str)> {
        w(|w| w.ready.iter().map(|&i| (i, w.entries[i].node, w.entries[i].name)).collect())
    }
    /// What is in the mailbox of an actor.
    pub fn mailbox<A: Actor>(a: &Addr<A>) -> Vec<&'static str> {
        match slot(a.0) {
            Some(s) => s.any().downcast_ref::<Cell<A>>().unwrap().mail.borrow().iter().map(|x| x.0).collect(),
            None => vec![],
        }
    }
    /// Looks at an actor, or changes it, between two of its steps.
    pub fn with<A: Actor, T>(a: &Addr<A>, f: impl FnOnce(&mut A, &mut A::Context) -> T) -> T {
        let s = slot(a.0).expect("the actor is gone");
        let c = s.any().downcast_ref::<Cell<A>>().unwrap();
        let mut i = c.inner.borrow_mut();
        let (a, c) = &mut *i;
        f(a.as_mut().expect("the actor has stopped"), c)
    }
    /// The nth of those who can go on does.
    pub fn step(n: usize) -> bool {
        let next = w(|w| {
            let i = w.ready.remove(n)?;
            w.steps += 1;
            w.node = w.entries[i].node;
            w.entries[i].flag.0.store(false, SeqCst);
            let b = match &mut w.entries[i].body {
                Body::Actor(s) => Body::Actor(s.clone()),
                Body::Task(t) => Body::Task(t.take()),
                Body::Gone => Body::Gone,
            };
            Some((i, w.entries[i].flag.clone(), b))
        });
        let Some((i, flag, b)) = next else { return false };
        let waker = Waker::from(flag);
        match b {
            Body::Actor(s) => {
                if !s.run(&waker) {
                    w(|w| w.entries[i].body = Body::Gone);
                }
            }
            Body::Task(Some(mut t)) => {
                // A task that panics is gone, and nobody else with it
                match catch_unwind(AssertUnwindSafe(|| t.as_mut().poll(&mut Cx::from_waker(&waker)))) {
                    Ok(Poll::Pending) => w(|w| w.entries[i].body = Body::Task(Some(t))),
                    r => {
                        w(|w| {
                            w.entries[i].body = Body::Gone;
                            w.panics += r.is_err() as u64
                        });
                    }
                }
            }
            _ => {}
        }
        true
    }
    /// Everybody goes on until nobody can; returns the number of steps.
    pub fn settle() -> u64 {
        let before = steps();
        while step(0) {
            assert!(steps() - before < 1_000_000, "the actors never come to rest");
        }
        steps() - before
    }
    /// When the next timer is due.
    pub fn next_timer() -> Option<Duration> {
        w(|w| w.timers.iter().map(|t| t.0).min())
    }
    /// Time passes; timers go off in their order, and everybody goes on after each.
    pub fn advance(d: Duration) {
        advance_until(d, &mut || false);
    }
    /// The same, but stops after the first step after which `enough` says so.
    pub fn advance_until(d: Duration, enough: &mut dyn FnMut() -> bool) -> bool {
        let end = now() + d;
        loop {
            let before = steps();
            while step(0) {
                assert!(steps() - before < 1_000_000, "the actors never come to rest");
                if enough() {
                    return true;
                }
            }
            match next_timer() {
                Some(t) if t <= end => {
                    let due = w(|w| {
                        w.now = w.now.max(t);
                        let (due, rest) = std::mem::take(&mut w.timers).into_iter().partition(|x| x.0 <= t);
                        w.timers = rest;
                        due
                    });
                    let due: Vec<(Duration, Waker)> = due;
                    for (_, k) in due {
                        k.wake()
                    }
                }
                _ => break,
            }
        }
        w(|w| w.now = end);
        false
    }
    /// Goes on until the future is there; time passes when nothing else happens.
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = Box::pin(f);
        loop {
            if let Poll::Ready(x) = f.as_mut().poll(&mut Cx::from_waker(Waker::noop())) {
                return x;
            }
            if !step(0) {
                match next_timer() {
                    Some(t) => advance(t.saturating_sub(now())),
                    None => panic!("a future waits for something that does not come"),
                }
            }
        }
    }
}

pub mod dev {
    pub use super::{MessageResponse, Reply as OneshotSender};
    /// Whoever handles a message can be sent it.
    pub trait ToEnvelope<A, M> {}
    impl<A: super::Handler<M, Context = super::Context<A>>, M: super::Message> ToEnvelope<A, M> for super::Context<A> {}
}
pub mod prelude {
    pub use super::fut::{self, ActorFutureExt as _, ActorStreamExt as _, ActorTryFutureExt as _};
    pub use super::{
        Actor, ActorContext, ActorFuture, ActorFutureExt, ActorStream, ActorStreamExt, ActorTryFutureExt, Addr, Arbiter, AsyncContext, Context,
        ContextFutureSpawner, Handler, MailboxError, Message, MessageResult, Recipient, Request, ResponseActFuture, ResponseFuture, Running, SpawnHandle,
        StreamHandler, Supervised, Supervisor, SyncArbiter, SyncContext, System, SystemRegistry, SystemService, WrapFuture, WrapStream,
    };
}
