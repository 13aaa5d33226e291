//! Every interleaving of small concurrent programs over the in-memory backend, under shuttle's depth-first scheduler.
use mc::{Run, guard};
use shuttle::scheduler::DfsScheduler;
use shuttle::sync::Arc;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use storage_mt::backends::hashmap::Backend;
use storage_mt::storage::{Storage, WriteBatch};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Op {
    Put(u16, u8),
    Del(u16),
    Get(u16),
    Scan,
    Batch(Vec<(u16, Option<u8>)>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Res {
    Done,
    Val(Option<u8>),
    All(BTreeMap<u16, u8>),
}
fn key(k: u16) -> Vec<u8> {
    k.to_be_bytes().to_vec()
}
fn exec(s: &Backend, o: &Op) -> Res {
    match o {
        Op::Put(k, v) => {
            s.put(key(*k), vec![*v]).unwrap();
            Res::Done
        }
        Op::Del(k) => {
            s.delete(&key(*k)).unwrap();
            Res::Done
        }
        Op::Get(k) => Res::Val(s.get(&key(*k)).unwrap().map(|v| v[0])),
        Op::Scan => Res::All(s.prefix_iterator(&[]).unwrap().map(|(k, v)| (u16::from_be_bytes([k[0], k[1]]), v[0])).collect()),
        Op::Batch(l) => {
            let mut b = WriteBatch::default();
            for (k, v) in l {
                match v {
                    Some(v) => b.put(key(*k), vec![*v]),
                    None => b.delete(key(*k)),
                }
            }
            Storage::write(s, b).unwrap();
            Res::Done
        }
    }
}
fn model(m: &mut BTreeMap<u16, u8>, o: &Op) -> Res {
    let mut w = |k: u16, v: Option<u8>| match v {
        Some(v) => {
            m.insert(k, v);
        }
        None => {
            m.remove(&k);
        }
    };
    match o {
        Op::Put(k, v) => w(*k, Some(*v)),
        Op::Del(k) => w(*k, None),
        Op::Batch(l) => l.iter().for_each(|(k, v)| w(*k, *v)),
        Op::Get(k) => return Res::Val(m.get(k).copied()),
        Op::Scan => return Res::All(m.clone()),
    }
    Res::Done
}

/// One call: thread, operation, result, start and end on the common clock.
type Call = (usize, Op, Res, u64, u64);

/// Is there an order of the calls, consistent with real time, that the map explains?
fn linearizable(init: &BTreeMap<u16, u8>, h: &[Call]) -> bool {
    fn go(m: &BTreeMap<u16, u8>, left: &[Call]) -> bool {
        if left.is_empty() {
            return true;
        }
        let first_end = left.iter().map(|c| c.4).min().unwrap();
        for i in 0..left.len() {
            if left[i].3 > first_end {
                continue;
            }
            let mut n = m.clone();
            if model(&mut n, &left[i].1) == left[i].2 {
                let mut rest = left.to_vec();
                rest.remove(i);
                if go(&n, &rest) {
                    return true;
                }
            }
        }
        false
    }
    go(init, h)
}

struct Shared {
    clock: u64,
    hist: Vec<Call>,
}

/// What came of all interleavings of one program.
struct Outcome {
    /// interleavings, the different things observed, final states, the last history that failed
    n: u64,
    seen: BTreeSet<Vec<(usize, Op, Res)>>,
    ends: BTreeMap<String, u64>,
    bad: Vec<Call>,
    result: Result<(), String>,
}
fn interleave(init: &[(u16, u8)], threads: &[Vec<Op>]) -> Outcome {
    let init: BTreeMap<u16, u8> = init.iter().copied().collect();
    let n = std::sync::Arc::new(Mutex::new((0u64, BTreeSet::<Vec<(usize, Op, Res)>>::new(), BTreeMap::<String, u64>::new(), Vec::<Call>::new())));
    let (n2, init2, th2) = (n.clone(), init.clone(), threads.to_vec());
    let body = move || {
        let s = Arc::new(Backend::default());
        for (k, v) in &init2 {
            s.put(key(*k), vec![*v]).unwrap();
        }
        // Not a synchronization object of the scheduler: no switch happens inside.
        let sh = std::sync::Arc::new(Mutex::new(Shared { clock: 0, hist: vec![] }));
        let hs: Vec<_> = th2
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, ops)| {
                let (s, sh) = (s.clone(), sh.clone());
                shuttle::thread::spawn(move || {
                    for o in ops {
                        let start = { let mut g = sh.lock().unwrap(); g.clock += 1; g.clock };
                        let r = exec(&s, &o);
                        let mut g = sh.lock().unwrap();
                        g.clock += 1;
                        let end = g.clock;
                        g.hist.push((t, o, r, start, end));
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let (mut hist, t) = { let g = sh.lock().unwrap(); (g.hist.clone(), g.clock) };
        let fin = exec(&s, &Op::Scan);
        hist.push((99, Op::Scan, fin, t + 1, t + 2));
        let mut g = n2.lock().unwrap();
        g.0 += 1;
        let mut obs: Vec<_> = hist.iter().map(|c| (c.0, c.1.clone(), c.2.clone())).collect();
        obs.sort();
        g.1.insert(obs);
        if let Res::All(m) = &hist.last().unwrap().2 {
            *g.2.entry(format!("final {m:?}")).or_default() += 1;
        }
        if !linearizable(&init2, &hist) {
            g.3 = hist.clone();
            drop(g);
            panic!("no order of the calls explains what they returned");
        }
    };
    let mut cfg = shuttle::Config::new();
    cfg.failure_persistence = shuttle::FailurePersistence::None;
    cfg.silence_warnings = true;
    let r = guard(|| shuttle::Runner::new(DfsScheduler::new(None, false), cfg).run(body));
    let mut g = n.lock().unwrap_or_else(|e| e.into_inner());
    let (bad, seen, ends) = (std::mem::take(&mut g.3), std::mem::take(&mut g.1), std::mem::take(&mut g.2));
    let result = r.map(|_| ()).map_err(|m| if bad.is_empty() { m } else { "no order of the calls explains what they returned".into() });
    Outcome { n: g.0, seen, ends, bad, result }
}
fn told(threads: &[Vec<Op>], bad: &[Call]) -> Vec<String> {
    let mut log: Vec<String> = threads.iter().enumerate().map(|(i, t)| format!("thread {i}: {t:?}")).collect();
    log.extend(bad.iter().map(|c| format!("[{}..{}] thread {} {:?} -> {:?}", c.3, c.4, c.0, c.1, c.2)));
    log
}
fn check(run: &mut Run, name: &str, init: &[(u16, u8)], threads: Vec<Vec<Op>>) {
    if run.failed() {
        return;
    }
    let o = interleave(init, &threads);
    let ops: u64 = threads.iter().map(|t| t.len() as u64).sum::<u64>() * o.n;
    let outs: Vec<(String, u64)> = o.ends.iter().map(|(a, b)| (a.clone(), *b)).collect();
    let sample: Vec<String> = o.seen.iter().rev().take(1).map(|o| format!("{o:?}")).collect();
    run.record(name, "all interleavings (shuttle, depth first, no preemption bound)", o.n, ops, o.seen.len() as u64, o.result.is_ok(), &sample, &outs);
    if let Err(m) = o.result {
        run.fail(name, told(&threads, &o.bad), m);
    }
}
/// All programs of two threads, one of one call and one of up to two, and of three threads of one call each.
fn programs(run: &mut Run) {
    use Op::*;
    let b = |l: &[(u16, u8)]| Batch(l.iter().map(|(k, v)| (*k, (*v > 0).then_some(*v))).collect());
    let calls = |v: u8| vec![Put(1, v), Put(2, v), Del(1), Del(2), Get(1), Get(2), Scan, b(&[(1, v), (2, v)]), b(&[(1, 0), (2, v)]), b(&[(2, v)]), b(&[(3, v), (1, 0)]), b(&[])];
    let inits = [&[][..], &[(1, 9)], &[(1, 9), (2, 9)]];
    let long = run.pick(1, 2);
    mc::explore(run, "every program", |c| {
        let init = c.of(&inits);
        let three = c.flag();
        let mut threads = vec![];
        if three {
            let (i, j) = (c.pick(12), c.pick(12));
            let k = c.pick(12);
            if i > j || j > k {
                return Ok(());
            }
            threads = vec![vec![calls(1)[i].clone()], vec![calls(2)[j].clone()], vec![calls(3)[k].clone()]];
        } else {
            threads.push((0..1 + c.pick(long)).map(|_| calls(1)[c.pick(12)].clone()).collect());
            threads.push((0..1 + c.pick(2)).map(|i| calls(2 + i as u8)[c.pick(12)].clone()).collect());
        }
        let o = interleave(init, &threads);
        c.ops(o.n);
        o.result.map_err(|m| format!("{m}\n{}", told(&threads, &o.bad).join("\n")))
    });
}

pub fn concurrent(run: &mut Run) {
    programs(run);
    use Op::*;
    let b = |l: &[(u16, u8)]| Batch(l.iter().map(|(k, v)| (*k, (*v > 0).then_some(*v))).collect());
    check(run, "batch and two reads", &[], vec![vec![b(&[(1, 1), (2, 1)])], vec![Get(2), Get(1)]]);
    check(run, "batch and scan", &[(1, 9), (2, 9)], vec![vec![b(&[(1, 1), (2, 0), (3, 1)])], vec![Scan, Get(3)]]);
    check(run, "two batches", &[], vec![vec![b(&[(1, 1), (2, 1)])], vec![b(&[(1, 2), (2, 2)])], vec![Scan]]);
    check(run, "batch that deletes and writes again", &[(1, 9)], vec![vec![b(&[(1, 0), (1, 2)])], vec![Get(1), Get(1)]]);
    check(run, "batch and put", &[], vec![vec![b(&[(1, 1), (2, 1), (1, 3)])], vec![Put(1, 2), Get(2)]]);
    check(run, "batch and delete", &[(1, 9)], vec![vec![b(&[(1, 1), (2, 1)])], vec![Del(2), Del(1)], vec![Get(1)]]);
    check(run, "writers of one key", &[], vec![vec![Put(1, 1), Get(1)], vec![Put(1, 2), Get(1)]]);
    check(run, "put and delete", &[(1, 9)], vec![vec![Put(1, 1)], vec![Del(1), Get(1)], vec![Get(1), Scan]]);
    check(run, "empty batch", &[(1, 9)], vec![vec![b(&[]), Put(1, 2)], vec![Scan, Scan]]);
    // Batches of any length are one step.
    for n in run.pick(vec![20u16, 33, 65, 260, 1030], vec![20, 33, 65, 130, 260, 520, 1030, 2050, 4100]) {
        let big = |v: u8| Batch((0..n).map(|k| (k, (k % 5 != 4).then_some(v))).collect());
        check(run, &format!("batch of {n} and reads"), &[(4, 9), (n, 9)], vec![vec![big(1)], vec![Get(0), Get(n - 2)]]);
        check(run, &format!("batch of {n} and scan"), &[(4, 9), (n, 9)], vec![vec![big(1)], vec![Scan]]);
        check(run, &format!("batch of {n} and write"), &[(0, 9)], vec![vec![big(1)], vec![Put(0, 2), Get(n - 3)]]);
        check(run, &format!("two batches of {n}"), &[], vec![vec![big(1)], vec![big(2)]]);
    }
    if run.thorough() {
        check(run, "three writers", &[], vec![vec![b(&[(1, 1), (2, 1)])], vec![b(&[(2, 2), (1, 2)])], vec![Put(1, 3), Get(2)]]);
        check(run, "readers and a batch", &[(1, 9)], vec![vec![b(&[(1, 1), (2, 1), (3, 1)])], vec![Scan, Get(1)], vec![Get(3), Get(1)]]);
        check(run, "long programs", &[(2, 9)], vec![vec![Put(1, 1), b(&[(1, 2), (2, 2)]), Del(1)], vec![Get(1), Scan, Get(2)]]);
        check(run, "four threads", &[], vec![vec![b(&[(1, 1), (2, 1)])], vec![Put(2, 2)], vec![Del(1)], vec![Scan]]);
    }
}
