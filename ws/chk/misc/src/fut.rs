use futures::task::{Context, Poll, Wake, Waker};
use futures_utils::TryFutureExt2;
use mc::{Ch, Run, ensure, explore, same};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct E1(u8);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct E2(u8);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum E {
    Inner(u8),
    Outer(u8),
}
impl From<E1> for E {
    fn from(e: E1) -> E {
        E::Inner(e.0)
    }
}
impl From<E2> for E {
    fn from(e: E2) -> E {
        E::Outer(e.0)
    }
}
#[derive(Default)]
struct Log {
    polls: AtomicU32,
    drops: AtomicU32,
}
/// Pending `left` times (waking or keeping the waker), then ready.
struct Fut<T> {
    left: u32,
    wake: bool,
    out: Option<T>,
    log: Arc<Log>,
}
impl<T: Unpin> Future for Fut<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        self.log.polls.fetch_add(1, Ordering::SeqCst);
        if self.left > 0 {
            self.left -= 1;
            if self.wake {
                cx.waker().wake_by_ref();
            }
            Poll::Pending
        } else {
            Poll::Ready(self.out.take().expect("polled after completion"))
        }
    }
}
impl<T> Drop for Fut<T> {
    fn drop(&mut self) {
        self.log.drops.fetch_add(1, Ordering::SeqCst);
    }
}
struct W(AtomicU32);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

struct U1;
struct U2;
struct Big([u64; 40]);
struct Dropped(Arc<AtomicU32>);
impl Drop for Dropped {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
struct Holds(#[allow(dead_code)] Dropped);
enum Any {
    U1,
    U2,
    Big,
    Holds,
    Held(#[allow(dead_code)] Holds),
    Wrong,
}
impl Any {
    fn name(&self) -> &'static str {
        match self {
            Any::U1 => "U1",
            Any::U2 => "U2",
            Any::Big => "Big",
            Any::Holds | Any::Held(_) => "Holds",
            Any::Wrong => "Wrong",
        }
    }
}
impl From<U1> for Any {
    fn from(_: U1) -> Any {
        Any::U1
    }
}
impl From<U2> for Any {
    fn from(_: U2) -> Any {
        Any::U2
    }
}
impl From<Big> for Any {
    fn from(b: Big) -> Any {
        if b.0 == [3; 40] { Any::Big } else { Any::Wrong }
    }
}
impl From<Holds> for Any {
    fn from(h: Holds) -> Any {
        Any::Held(h)
    }
}

type R = Result<Result<u8, E1>, E2>;

fn results() -> Vec<R> {
    vec![Ok(Ok(0)), Ok(Ok(7)), Ok(Err(E1(1))), Ok(Err(E1(2))), Err(E2(1)), Err(E2(3))]
}
fn want(r: &R) -> Result<u8, E> {
    match r {
        Ok(Ok(x)) => Ok(*x),
        Ok(Err(e)) => Err(E::Inner(e.0)),
        Err(e) => Err(E::Outer(e.0)),
    }
}

pub fn flatten(run: &mut Run) {
    let max = run.pick(4, 12);
    explore(run, "one future", move |c: &mut Ch| {
        let r = c.of(&results());
        let n = c.pick(max) as u32;
        let wake = c.flag();
        let stop = c.pick(n as usize + 2) as u32;
        let log = Arc::new(Log::default());
        let inner = Fut { left: n, wake, out: Some(r.clone()), log: log.clone() };
        let mut f = Box::pin(TryFutureExt2::flatten_err::<u8, E1, E2, E>(inner));
        same!(log.polls.load(Ordering::SeqCst), 0, "polls before anybody asked");
        let w = Arc::new(W(AtomicU32::new(0)));
        let waker = Waker::from(w.clone());
        let mut cx = Context::from_waker(&waker);
        // Polled `stop` times, then dropped; complete when stop is larger than the number of delays.
        for i in 0..stop {
            let p = f.as_mut().poll(&mut cx);
            same!(log.polls.load(Ordering::SeqCst), i + 1, "polls of the inner future");
            c.op(|| format!("poll -> {p:?}"));
            if i < n {
                ensure!(p.is_pending(), "ready after {} of {n} delays", i);
                same!(w.0.load(Ordering::SeqCst), if wake { i + 1 } else { 0 }, "wake-ups");
            } else {
                same!(p, Poll::Ready(want(&r)), "result of {r:?}");
                c.outcome(&format!("{:?}", want(&r)));
            }
        }
        drop(f);
        same!(log.drops.load(Ordering::SeqCst), 1, "times the inner future was dropped");
        c.state(&(format!("{r:?}"), n, wake, stop));
        Ok(())
    });
    explore(run, "two futures, any order of polling", |c: &mut Ch| {
        let (a, b) = (c.of(&results()), c.of(&results()));
        let (na, nb) = (c.pick(3) as u32, c.pick(3) as u32);
        let (la, lb) = (Arc::new(Log::default()), Arc::new(Log::default()));
        let mut fa = Box::pin(TryFutureExt2::flatten_err::<u8, E1, E2, E>(Fut { left: na, wake: false, out: Some(a.clone()), log: la }));
        let mut fb = Box::pin(TryFutureExt2::flatten_err::<u8, E1, E2, E>(Fut { left: nb, wake: true, out: Some(b.clone()), log: lb }));
        let w = Arc::new(W(AtomicU32::new(0)));
        let waker = Waker::from(w);
        let mut cx = Context::from_waker(&waker);
        let (mut ra, mut rb) = (None, None);
        while ra.is_none() || rb.is_none() {
            let first = if ra.is_some() { false } else if rb.is_some() { true } else { c.flag() };
            if first {
                if let Poll::Ready(x) = fa.as_mut().poll(&mut cx) {
                    ra = Some(x);
                }
            } else if let Poll::Ready(x) = fb.as_mut().poll(&mut cx) {
                rb = Some(x);
            }
            c.op(|| format!("poll {}", if first { "a" } else { "b" }));
        }
        same!(ra, Some(want(&a)), "first");
        same!(rb, Some(want(&b)), "second");
        c.state(&(format!("{a:?}{b:?}"), na, nb));
        Ok(())
    });
    // The source keeps the waker of the last poll, and something else wakes it.
    explore(run, "changing wakers", |c: &mut Ch| {
        let r = c.of(&results());
        let n = c.pick(4);
        let cell = Arc::new(std::sync::Mutex::new((None::<Waker>, false)));
        let (cell2, r2) = (cell.clone(), r.clone());
        let src = futures::future::poll_fn(move |cx| {
            let mut g = cell2.lock().unwrap();
            if g.1 {
                return Poll::Ready(r2.clone());
            }
            g.0 = Some(cx.waker().clone());
            Poll::Pending
        });
        let mut f = Box::pin(TryFutureExt2::flatten_err::<u8, E1, E2, E>(src));
        let ws: Vec<Arc<W>> = (0..3).map(|_| Arc::new(W(AtomicU32::new(0)))).collect();
        let mut last = None;
        for _ in 0..n {
            let k = c.pick(3);
            let waker = Waker::from(ws[k].clone());
            ensure!(f.as_mut().poll(&mut Context::from_waker(&waker)).is_pending(), "ready too early");
            last = Some(k);
            c.op(|| format!("polled by task {k}"));
        }
        // The event.
        let w = { let mut g = cell.lock().unwrap(); g.1 = true; g.0.take() };
        same!(w.is_some(), n > 0, "the source has a waker");
        if let Some(w) = w {
            w.wake();
            let last = last.unwrap();
            ensure!(ws[last].0.load(Ordering::SeqCst) > 0, "the task that polled last ({last}) is not woken");
        }
        let waker = Waker::from(ws[0].clone());
        same!(f.as_mut().poll(&mut Context::from_waker(&waker)), Poll::Ready(want(&r)), "result of {r:?}");
        c.state(&(format!("{r:?}"), n, last));
        Ok(())
    });
    // Values and errors of no size, of much size, and such as count their drops.
    explore(run, "types", |c: &mut Ch| {
        let (k, n, kind) = (c.pick(3), c.pick(3) as u32, c.pick(4));
        let log = Arc::new(Log::default());
        fn go<T: Unpin + 'static, E1: Unpin + 'static, E2: Unpin + 'static>(n: u32, log: &Arc<Log>, r: Result<Result<T, E1>, E2>) -> Result<T, Any>
        where
            Any: From<E1> + From<E2>,
        {
            futures::executor::block_on(TryFutureExt2::flatten_err::<T, E1, E2, Any>(Fut { left: n, wake: true, out: Some(r), log: log.clone() }))
        }
        fn pick<T, E1, E2>(k: usize, t: T, a: E1, b: E2) -> Result<Result<T, E1>, E2> {
            match k {
                0 => Ok(Ok(t)),
                1 => Ok(Err(a)),
                _ => Err(b),
            }
        }
        let drops = Arc::new(AtomicU32::new(0));
        let d = || Dropped(drops.clone());
        let got = match kind {
            0 => go(n, &log, pick(k, (), U1, U2)).map(|_| 0),
            1 => go(n, &log, pick(k, [7u64; 64], U1, Big([3; 40]))).map(|x| { assert!(x == [7; 64]); 0 }),
            2 => go(n, &log, pick(k, (), Big([3; 40]), U2)).map(|_| 0),
            _ => {
                // The two values not chosen are dropped here already: count from then on.
                let r = pick(k, d(), Holds(d()), U2);
                let before = drops.load(Ordering::SeqCst);
                let r = go(n, &log, r);
                same!(drops.load(Ordering::SeqCst), before, "values dropped on the way");
                r.map(|_| 0)
            }
        };
        let w = match (k, kind) {
            (0, _) => Ok(0),
            (1, 0 | 1) => Err(Any::U1),
            (1, 2) => Err(Any::Big),
            (1, _) => Err(Any::Holds),
            (_, 1) => Err(Any::Big),
            _ => Err(Any::U2),
        };
        match (&got, &w) {
            (Ok(_), Ok(_)) => {}
            (Err(a), Err(b)) => same!(a.name(), b.name(), "error"),
            _ => return Err(format!("case {k} of types {kind} gives {:?}", got.map_err(|e| e.name()))),
        }
        same!(log.polls.load(Ordering::SeqCst), n + 1, "polls");
        same!(log.drops.load(Ordering::SeqCst), 1, "times the source was dropped");
        c.op(|| format!("case {k}, types {kind}"));
        c.state(&(k, n, kind));
        Ok(())
    });
    explore(run, "nested twice", |c: &mut Ch| {
        let vals: Vec<Result<R, E>> = results().into_iter().map(Ok).chain([Err(E::Outer(9)), Err(E::Inner(8))]).collect();
        let v = c.of(&vals);
        let n = c.pick(3) as u32;
        let log = Arc::new(Log::default());
        // Result<Result<Result<u8, E1>, E2>, E> flattened from the outside in.
        let f = Fut { left: n, wake: true, out: Some(v.clone()), log: log.clone() };
        let f = TryFutureExt2::flatten_err::<Result<u8, E1>, E2, E, E>(f);
        let f = TryFutureExt2::flatten_err::<u8, E1, E, E>(f);
        let got = futures::executor::block_on(f);
        let w = match &v {
            Ok(r) => want(r),
            Err(e) => Err(e.clone()),
        };
        same!(got, w, "result of {v:?}");
        same!(log.polls.load(Ordering::SeqCst), n + 1, "polls");
        c.op(|| format!("{v:?}"));
        c.state(&(format!("{v:?}"), n));
        Ok(())
    });
}
