//! The part of tokio that the node names: connections whose two ends are in this process, and the
//! clock of the scheduler.
pub mod net {
    use bytes::BytesMut;
    use std::{
        collections::VecDeque,
        io,
        net::SocketAddr,
        sync::{Arc, Mutex},
        task::{Poll, Waker},
    };

    #[derive(Default)]
    struct State {
        data: VecDeque<BytesMut>,
        closed: bool,
        held: bool,
        waker: Option<Waker>,
    }
    /// One direction of a connection.
    #[derive(Clone, Default)]
    pub struct Pipe(Arc<Mutex<State>>);
    impl Pipe {
        pub fn put(&self, b: &[u8]) {
            let mut s = self.0.lock().unwrap();
            s.data.push_back(b.into());
            if let Some(w) = s.waker.take() {
                w.wake()
            }
        }
        pub fn close(&self) {
            let mut s = self.0.lock().unwrap();
            s.closed = true;
            if let Some(w) = s.waker.take() {
                w.wake()
            }
        }
        pub fn closed(&self) -> bool {
            self.0.lock().unwrap().closed
        }
        /// While a pipe is held, what is in it does not arrive.
        pub fn hold(&self, x: bool) {
            let mut s = self.0.lock().unwrap();
            s.held = x;
            if let (false, Some(w)) = (x, s.waker.take()) {
                w.wake()
            }
        }
        /// What arrived since the last call.
        pub fn take(&self) -> Vec<u8> {
            self.0.lock().unwrap().data.drain(..).flatten().collect()
        }
        pub fn poll_read(&self, cx: &mut std::task::Context<'_>) -> Poll<Option<BytesMut>> {
            let mut s = self.0.lock().unwrap();
            if s.held {
                s.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            match s.data.pop_front() {
                Some(b) => Poll::Ready(Some(b)),
                None if s.closed => Poll::Ready(None),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    /// This end of a connection.
    pub struct TcpStream {
        peer: io::Result<SocketAddr>,
        input: Pipe,
        output: Pipe,
    }
    impl TcpStream {
        pub fn new(peer: SocketAddr, input: Pipe, output: Pipe) -> Self {
            TcpStream { peer: Ok(peer), input, output }
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            self.peer.as_ref().map(|x| *x).map_err(|_| io::ErrorKind::NotConnected.into())
        }
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
            (tcp::OwnedReadHalf(self.input), tcp::OwnedWriteHalf(self.output))
        }
    }
    pub mod tcp {
        use super::Pipe;
        pub struct OwnedReadHalf(pub Pipe);
        pub struct OwnedWriteHalf(pub Pipe);
        impl actix_sim::io::Wire for OwnedWriteHalf {
            fn put(&mut self, b: &[u8]) {
                self.0.put(b)
            }
            fn close(&mut self) {
                self.0.close()
            }
        }
        impl Drop for OwnedWriteHalf {
            fn drop(&mut self) {
                self.0.close()
            }
        }
    }
}
pub mod runtime {
    #[derive(Debug, Clone)]
    pub struct Handle;
    pub struct Runtime;
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime)
        }
        pub fn handle(&self) -> &Handle {
            &Handle
        }
    }
}
pub mod time {
    use std::{future::Future, time::Duration};
    pub use actix_sim::clock::{Sleep, sleep};
    #[derive(Debug)]
    pub struct Elapsed;
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, Elapsed> {
        match futures::future::select(Box::pin(f), sleep(d)).await {
            futures::future::Either::Left((x, _)) => Ok(x),
            futures::future::Either::Right(_) => Err(Elapsed),
        }
    }
}
