//! `futures_util` with `compat::Compat01As03` over an already finished computation, and
//! `compat::Compat` over a future that does not wait.
pub use futures::{FutureExt, TryFutureExt, future};
pub mod compat {
    pub struct Compat01As03<T>(Option<T>);
    impl<T> Compat01As03<T> {
        pub fn new(x: T) -> Self {
            Compat01As03(Some(x))
        }
    }
    impl<T: Unpin> std::future::Future for Compat01As03<T> {
        type Output = T;
        fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<T> {
            std::task::Poll::Ready(self.get_mut().0.take().expect("polled after completion"))
        }
    }
    pub struct Compat<F>(F);
    impl<F> Compat<F> {
        pub fn new(f: F) -> Self {
            Compat(f)
        }
    }
    impl<F: std::future::Future> jsonrpc_core::Finish<F::Output> for Compat<F> {
        fn finish(self) -> F::Output {
            actix::block_on(self.0)
        }
    }
}
