//! Actors without threads or mailboxes: a message is handled by calling the handler, and the futures
//! it leaves behind are run to where they wait for the clock. The clock goes on when it is told to.
use std::{
    future::Future,
    marker::PhantomData,
    ops::DerefMut,
    pin::Pin,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context as Cx, Poll, Waker},
    time::Duration,
};

pub trait Actor: Sized {
    type Context: Runs<Self>;
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn start(self) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>> + 'static,
    {
        let a = Addr(Arc::new((Mutex::new(self), Mutex::new(Context::default()))));
        a.context().address = Some(a.clone());
        a.enter(|actor, ctx| actor.started(ctx));
        a
    }
}
pub trait Message {
    type Result;
}
pub trait Handler<M: Message>: Actor {
    type Result: MessageResponse<Self, M>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}

/// What a handler returns, and how the result of the message comes out of it.
pub trait MessageResponse<A: Actor, M: Message> {
    fn finish(self, actor: &mut A, ctx: &mut A::Context) -> M::Result;
}
macro_rules! plain {
    ($([$($g:ident)*] $t:ty),*) => {$(
        impl<A: Actor, M: Message<Result = $t>, $($g),*> MessageResponse<A, M> for $t {
            fn finish(self, _: &mut A, _: &mut A::Context) -> $t {
                self
            }
        }
    )*};
}
plain!([] (), [] String, [] bool, [T E] Result<T, E>);
pub type ResponseFuture<T> = Pin<Box<dyn Future<Output = T>>>;
pub type ResponseActFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;
impl<A: Actor, T, M: Message<Result = T>> MessageResponse<A, M> for ResponseFuture<T> {
    fn finish(self, _: &mut A, _: &mut A::Context) -> T {
        block_on(self)
    }
}
impl<A: Actor, T, M: Message<Result = T>> MessageResponse<A, M> for ResponseActFuture<A, T> {
    fn finish(mut self, actor: &mut A, ctx: &mut A::Context) -> T {
        match self.as_mut().poll(actor, ctx, &mut Cx::from_waker(Waker::noop())) {
            Poll::Ready(x) => x,
            Poll::Pending => panic!("a message waits for the clock"),
        }
    }
}
/// Runs a future that does not wait for anything outside.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Cx::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("a future waits for something outside"),
    }
}

/// A context: runs what was spawned in it.
pub trait Runs<A: Actor>: Default {
    fn run(_actor: &mut A, _ctx: &mut Self) {}
}
/// The context of a synchronous actor.
pub struct SyncContext<A>(PhantomData<fn() -> A>);
impl<A> Default for SyncContext<A> {
    fn default() -> Self {
        SyncContext(PhantomData)
    }
}
impl<A: Actor<Context = SyncContext<A>>> Runs<A> for SyncContext<A> {}
/// The context of an asynchronous actor.
pub struct Context<A: Actor> {
    now: Duration,
    spawned: Vec<Pin<Box<dyn ActorFuture<A, Output = ()>>>>,
    address: Option<Addr<A>>,
}
impl<A: Actor> Default for Context<A> {
    fn default() -> Self {
        Context { now: Duration::ZERO, spawned: vec![], address: None }
    }
}
impl<A: Actor<Context = Context<A>>> Runs<A> for Context<A> {
    fn run(actor: &mut A, ctx: &mut Self) {
        let mut waiting = vec![];
        while !ctx.spawned.is_empty() {
            for mut f in std::mem::take(&mut ctx.spawned) {
                if f.as_mut().poll(actor, ctx, &mut Cx::from_waker(Waker::noop())).is_pending() {
                    waiting.push(f);
                }
            }
        }
        ctx.spawned = waiting;
    }
}
impl<A: Actor<Context = Context<A>> + 'static> Context<A> {
    pub fn address(&self) -> Addr<A> {
        self.address.clone().expect("the actor was not started")
    }
    pub fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) {
        self.spawned.push(Box::pin(f));
    }
    pub fn run_later<F: FnOnce(&mut A, &mut Context<A>) + 'static>(&mut self, d: Duration, f: F) {
        self.spawn(utils::TimerFunc::new(d, f));
    }
}

pub struct Addr<A: Actor>(Arc<(Mutex<A>, Mutex<A::Context>)>);
impl<A: Actor> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Addr(self.0.clone())
    }
}
impl<A: Actor> Addr<A> {
    fn context(&self) -> MutexGuard<'_, A::Context> {
        self.0.1.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn enter<T>(&self, f: impl FnOnce(&mut A, &mut A::Context) -> T) -> T {
        let mut a = self.0.0.lock().unwrap_or_else(|e| e.into_inner());
        let mut c = self.context();
        let r = f(&mut a, &mut c);
        A::Context::run(&mut a, &mut c);
        r
    }
    /// Handles the message here and now.
    pub fn call<M: Message>(&self, msg: M) -> M::Result
    where
        A: Handler<M>,
    {
        self.enter(|a, c| a.handle(msg, c).finish(a, c))
    }
    pub fn send<M: Message>(&self, msg: M) -> std::future::Ready<Result<M::Result, MailboxError>>
    where
        A: Handler<M>,
    {
        std::future::ready(Ok(self.call(msg)))
    }
    pub fn do_send<M: Message>(&self, msg: M)
    where
        A: Handler<M>,
    {
        self.call(msg);
    }
    pub fn recipient<M: Message + 'static>(self) -> Recipient<M>
    where
        A: Handler<M> + 'static,
    {
        Recipient(PhantomData)
    }
}
impl<A: Actor<Context = Context<A>>> Addr<A> {
    /// Time passes.
    pub fn advance(&self, d: Duration) {
        self.enter(|_, c| c.now += d)
    }
    /// Drops what waits, and with it what refers to the actor from itself.
    pub fn close(&self) {
        let mut c = self.context();
        c.spawned.clear();
        c.address = None;
    }
}
/// Where to send messages of one kind; nobody does here.
pub struct Recipient<M>(PhantomData<fn(M)>);
impl<M> Clone for Recipient<M> {
    fn clone(&self) -> Self {
        Recipient(PhantomData)
    }
}

pub struct SyncArbiter;
impl SyncArbiter {
    pub fn start<A: Actor>(_: usize, factory: impl Fn() -> A + 'static) -> Addr<A> {
        Addr(Arc::new((Mutex::new(factory()), Mutex::new(A::Context::default()))))
    }
}
pub struct Arbiter;
pub struct ArbiterHandle;
impl Arbiter {
    pub fn current() -> ArbiterHandle {
        ArbiterHandle
    }
}
impl ArbiterHandle {
    pub fn spawn<F: Future<Output = ()>>(&self, f: F) -> bool {
        block_on(f);
        true
    }
}
pub struct System;
impl System {
    pub fn current() -> System {
        System
    }
    pub fn stop(&self) {}
}
#[derive(Debug, thiserror::Error)]
pub enum MailboxError {
    #[error("Mailbox has closed")]
    Closed,
    #[error("Message delivery timed out")]
    Timeout,
}

/// A future that is given its actor whenever it is polled.
pub trait ActorFuture<A: Actor> {
    type Output;
    fn poll(self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output>;
}
impl<A: Actor, P: Unpin + DerefMut> ActorFuture<A> for Pin<P>
where
    P::Target: ActorFuture<A>,
{
    type Output = <P::Target as ActorFuture<A>>::Output;
    fn poll(self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output> {
        self.get_mut().as_mut().poll(actor, ctx, task)
    }
}
type Boxed<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;

pub mod fut {
    use super::*;
    pub use super::{ActorFuture, ActorFutureExt, ActorTryFutureExt, ContextFutureSpawner, WrapFuture};
    /// A future that is there already.
    pub struct Ready<T>(pub(super) Option<T>);
    pub fn ready<T>(x: T) -> Ready<T> {
        Ready(Some(x))
    }
    pub fn result<T, E>(r: Result<T, E>) -> Ready<Result<T, E>> {
        Ready(Some(r))
    }
    pub fn ok<T, E>(x: T) -> Ready<Result<T, E>> {
        Ready(Some(Ok(x)))
    }
    pub fn err<T, E>(e: E) -> Ready<Result<T, E>> {
        Ready(Some(Err(e)))
    }
    impl<A: Actor, T: Unpin> ActorFuture<A> for Ready<T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, _: &mut Cx<'_>) -> Poll<T> {
            Poll::Ready(self.0.take().expect("polled after completion"))
        }
    }
}

pub struct Wrapped<F, A>(Pin<Box<F>>, PhantomData<fn() -> A>);
impl<A: Actor, F: Future> ActorFuture<A> for Wrapped<F, A> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, task: &mut Cx<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(task)
    }
}
pub trait WrapFuture<A: Actor>: Future + Sized {
    fn into_actor(self, _: &A) -> Wrapped<Self, A> {
        Wrapped(Box::pin(self), PhantomData)
    }
}
impl<A: Actor, F: Future> WrapFuture<A> for F {}

/// A future, and another made out of its result.
pub struct Then<A: Actor, T, F, G>(Option<(Boxed<A, T>, F)>, Option<Pin<Box<G>>>);
impl<A: Actor, T, F, G> ActorFuture<A> for Then<A, T, F, G>
where
    F: FnOnce(T, &mut A, &mut A::Context) -> G + Unpin,
    G: ActorFuture<A>,
{
    type Output = G::Output;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<G::Output> {
        if let Some((first, _)) = &mut self.0 {
            match first.as_mut().poll(actor, ctx, task) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(x) => {
                    let f = self.0.take().unwrap().1;
                    self.1 = Some(Box::pin(f(x, actor, ctx)));
                }
            }
        }
        self.1.as_mut().unwrap().as_mut().poll(actor, ctx, task)
    }
}
pub struct Map<A: Actor, T, F>(Boxed<A, T>, Option<F>);
impl<A: Actor, T, U, F: FnOnce(T, &mut A, &mut A::Context) -> U + Unpin> ActorFuture<A> for Map<A, T, F> {
    type Output = U;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<U> {
        match self.0.as_mut().poll(actor, ctx, task) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(x) => Poll::Ready(self.1.take().unwrap()(x, actor, ctx)),
        }
    }
}
pub trait ActorFutureExt<A: Actor>: ActorFuture<A> + Sized + 'static {
    fn map<U, F: FnOnce(Self::Output, &mut A, &mut A::Context) -> U>(self, f: F) -> Map<A, Self::Output, F> {
        Map(Box::pin(self), Some(f))
    }
    fn then<G: ActorFuture<A>, F: FnOnce(Self::Output, &mut A, &mut A::Context) -> G>(self, f: F) -> Then<A, Self::Output, F, G> {
        Then(Some((Box::pin(self), f)), None)
    }
}
impl<A: Actor, F: ActorFuture<A> + 'static> ActorFutureExt<A> for F {}

pub struct MapOk<A: Actor, T, E, F>(Boxed<A, Result<T, E>>, Option<F>);
impl<A: Actor, T, E, U, F: FnOnce(T, &mut A, &mut A::Context) -> U + Unpin> ActorFuture<A> for MapOk<A, T, E, F> {
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Result<U, E>> {
        let f = &mut self.0;
        match f.as_mut().poll(actor, ctx, task) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(x)) => Poll::Ready(Ok(self.1.take().unwrap()(x, actor, ctx))),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }
    }
}
pub struct MapErr<A: Actor, T, E, F>(Boxed<A, Result<T, E>>, Option<F>);
impl<A: Actor, T, E, U, F: FnOnce(E, &mut A, &mut A::Context) -> U + Unpin> ActorFuture<A> for MapErr<A, T, E, F> {
    type Output = Result<T, U>;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Result<T, U>> {
        match self.0.as_mut().poll(actor, ctx, task) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(x)) => Poll::Ready(Ok(x)),
            Poll::Ready(Err(e)) => Poll::Ready(Err(self.1.take().unwrap()(e, actor, ctx))),
        }
    }
}
pub struct AndThen<A: Actor, T, E, F, G>(Option<(Boxed<A, Result<T, E>>, F)>, Option<Pin<Box<G>>>);
impl<A: Actor, T, E, U, F, G> ActorFuture<A> for AndThen<A, T, E, F, G>
where
    F: FnOnce(T, &mut A, &mut A::Context) -> G + Unpin,
    G: ActorFuture<A, Output = Result<U, E>>,
{
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Result<U, E>> {
        if let Some((first, _)) = &mut self.0 {
            match first.as_mut().poll(actor, ctx, task) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(x)) => {
                    let f = self.0.take().unwrap().1;
                    self.1 = Some(Box::pin(f(x, actor, ctx)));
                }
            }
        }
        self.1.as_mut().unwrap().as_mut().poll(actor, ctx, task)
    }
}
pub trait ActorTryFutureExt<A: Actor, T, E>: ActorFuture<A, Output = Result<T, E>> + Sized + 'static {
    fn map_ok<U, F: FnOnce(T, &mut A, &mut A::Context) -> U>(self, f: F) -> MapOk<A, T, E, F> {
        MapOk(Box::pin(self), Some(f))
    }
    fn map_err<U, F: FnOnce(E, &mut A, &mut A::Context) -> U>(self, f: F) -> MapErr<A, T, E, F> {
        MapErr(Box::pin(self), Some(f))
    }
    fn and_then<U, G: ActorFuture<A, Output = Result<U, E>>, F: FnOnce(T, &mut A, &mut A::Context) -> G>(self, f: F) -> AndThen<A, T, E, F, G> {
        AndThen(Some((Box::pin(self), f)), None)
    }
}
impl<A: Actor, T, E, F: ActorFuture<A, Output = Result<T, E>> + 'static> ActorTryFutureExt<A, T, E> for F {}

pub trait ContextFutureSpawner<A: Actor> {
    fn spawn(self, ctx: &mut Context<A>);
}
impl<A: Actor<Context = Context<A>>, F: ActorFuture<A, Output = ()> + 'static> ContextFutureSpawner<A> for F {
    fn spawn(self, ctx: &mut Context<A>) {
        ctx.spawned.push(Box::pin(self));
    }
}
pub mod utils {
    use super::*;
    /// Calls its function once the time has come.
    pub struct TimerFunc<A: Actor>(Duration, Option<Duration>, Option<Box<dyn FnOnce(&mut A, &mut A::Context)>>);
    impl<A: Actor> TimerFunc<A> {
        pub fn new(d: Duration, f: impl FnOnce(&mut A, &mut A::Context) + 'static) -> Self {
            TimerFunc(d, None, Some(Box::new(f)))
        }
    }
    impl<A: Actor<Context = Context<A>>> ActorFuture<A> for TimerFunc<A> {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, actor: &mut A, ctx: &mut Context<A>, _: &mut Cx<'_>) -> Poll<()> {
            let d = self.0;
            let at = *self.1.get_or_insert(ctx.now + d);
            if ctx.now < at {
                return Poll::Pending;
            }
            self.2.take().unwrap()(actor, ctx);
            Poll::Ready(())
        }
    }
}
pub mod prelude {
    pub use super::{
        Actor, ActorFuture, ActorFutureExt, ActorTryFutureExt, Addr, Arbiter, ArbiterHandle, Context, ContextFutureSpawner, Handler, MailboxError, Message,
        Recipient, ResponseActFuture, ResponseFuture, SyncArbiter, SyncContext, System, WrapFuture, fut,
    };
}
