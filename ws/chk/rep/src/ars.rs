use mc::{Run, System, bfs, ensure, explore, same};
use std::collections::BTreeSet;
use witnet_reputation::ActiveReputationSet;

type Ars = ActiveReputationSet<u8>;

/// The specification: who was active in each period, by epoch (pushed entries move time on by one).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Spec {
    cap: u64,
    /// (logical time, identities)
    win: Vec<(u64, BTreeSet<u8>)>,
    now: u64,
    last_update: u32,
}
impl Spec {
    fn new(cap: u64) -> Self {
        Spec { cap, win: vec![], now: 0, last_update: 0 }
    }
    fn push(&mut self, ids: &[u8], dt: u64) {
        self.now += dt;
        self.win.push((self.now, ids.iter().copied().collect()));
        let (now, cap) = (self.now, self.cap);
        self.win.retain(|(t, _)| now - t < cap);
    }
    fn active(&self) -> BTreeSet<u8> {
        self.win.iter().flat_map(|x| x.1.iter().copied()).collect()
    }
}

#[derive(Clone, Debug)]
enum A {
    Push(Vec<u8>),
    Update(Vec<u8>, i64),
    Clear,
    Reload,
}
#[derive(Clone)]
struct St {
    a: Ars,
    s: Spec,
    ops: u32,
}
// A state is looked at by one thread at a time, so a set that remembers things in cells will do as well.
unsafe impl Send for St {}
unsafe impl Sync for St {}

fn compare(a: &Ars, s: &Spec) -> Result<(), String> {
    let act = s.active();
    same!(a.active_identities().copied().collect::<BTreeSet<_>>(), act, "active identities");
    same!(a.active_identities().count(), act.len(), "identities listed");
    same!(a.active_identities_number(), act.len(), "number of active identities");
    for i in 0..6 {
        same!(a.contains(&i), act.contains(&i), "contains {i}");
    }
    same!(a.buffer_capacity() as u64, s.cap, "capacity");
    ensure!(a.buffer_size() as u64 <= s.cap, "{} periods kept, capacity {}", a.buffer_size(), s.cap);
    Ok(())
}

fn apply(a: &mut Ars, s: &mut Spec, x: &A) -> Result<(), String> {
    match x {
        A::Push(ids) => {
            let was = a.buffer_size() as u64;
            a.push_activity(ids.clone());
            s.push(ids, 1);
            same!(a.buffer_size() as u64, (was + 1).min(s.cap), "periods kept");
        }
        A::Update(ids, d) => {
            let e = (s.last_update as i64 + d).clamp(0, u32::MAX as i64) as u32;
            let before = a.clone();
            let r = a.update(ids.clone(), e);
            if e > s.last_update {
                ensure!(r.is_ok(), "update to {e} after {} refused", s.last_update);
                s.push(ids, (e - s.last_update) as u64);
                s.last_update = e;
            } else {
                same!(r.is_ok(), e == 0, "update to {e} after {}", s.last_update);
                ensure!(*a == before, "a refused update changed the set");
            }
        }
        A::Clear => {
            a.clear();
            s.win.clear();
            same!(a.buffer_size(), 0, "periods after clear");
        }
        A::Reload => {
            let b = bincode::serialize(a).map_err(|e| e.to_string())?;
            let u: Ars = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            ensure!(u == *a, "a stored set is not equal to the original");
            *a = u;
        }
    }
    compare(a, s)
}

struct Sys {
    cap: u64,
}
impl System for Sys {
    type S = St;
    type A = A;
    fn init(&self) -> Vec<St> {
        vec![St { a: Ars::new(self.cap as usize), s: Spec::new(self.cap), ops: 0 }]
    }
    fn actions(&self, s: &St) -> Vec<A> {
        let mut v = vec![];
        for ids in [vec![], vec![0u8], vec![1], vec![0, 1], vec![1, 1, 2]] {
            v.push(A::Push(ids.clone()));
            let c = self.cap as i64;
            for d in [1, 2, c - 1, c, c + 1] {
                if d > 0 {
                    v.push(A::Update(ids.clone(), d));
                }
            }
        }
        for ids in [vec![], vec![0]] {
            for d in [0, -1, -2, -3] {
                v.push(A::Update(ids.clone(), d));
            }
        }
        v.extend([A::Update(vec![], i64::MIN / 2), A::Update(vec![3], i64::MIN / 2), A::Update(vec![4], 1 << 31), A::Clear, A::Reload]);
        let _ = s;
        v
    }
    fn step(&self, s: &mut St, a: &A) -> Result<(), String> {
        s.ops += 1;
        apply(&mut s.a, &mut s.s, a)
    }
    fn key(&self, s: &St) -> u128 {
        // Times relative to now; the update clock matters only through zero, small and large.
        let rel: Vec<_> = s.s.win.iter().map(|(t, i)| (s.s.now - t, i)).collect();
        let lu = if s.s.last_update < 9 { s.s.last_update } else if s.s.last_update < 1 << 31 { 9 } else { 10 };
        mc::fp(&(rel, lu, s.a.buffer_size()))
    }
    fn check(&self, s: &St) -> Result<(), String> {
        compare(&s.a, &s.s)?;
        // What it will forget, and when: nothing that is still to come may differ.
        let (mut a, mut m) = (s.a.clone(), s.s.clone());
        for _ in 0..self.cap {
            apply(&mut a, &mut m, &A::Push(vec![]))?;
        }
        same!(a.active_identities_number(), 0, "active after a whole empty window");
        let (mut a, mut m) = (s.a.clone(), s.s.clone());
        apply(&mut a, &mut m, &A::Update(vec![0], 0))?;
        apply(&mut a, &mut m, &A::Update(vec![5], 1))
    }
}

pub fn window(run: &mut Run) {
    // Two sets are equal when they remember the same periods with the same capacity.
    let len = run.pick(2, 3);
    explore(run, "equality", move |c| {
        let menu = [vec![], vec![0u8], vec![1], vec![0, 1]];
        let make = |c: &mut mc::Ch| {
            let cap = 1 + c.pick(3);
            let l = c.seq(&menu, len);
            let mut a = Ars::new(cap);
            for ids in &l {
                a.push_activity(ids.clone());
            }
            let kept: Vec<_> = l.iter().skip(l.len().saturating_sub(cap)).cloned().collect();
            (a, cap, kept)
        };
        let (a, ca, ka) = make(c);
        let (b, cb, kb) = make(c);
        c.op(|| format!("{ca} {ka:?} == {cb} {kb:?}"));
        same!(a == b, (ca, &ka) == (cb, &kb), "equality of {ca} {ka:?} and {cb} {kb:?}");
        c.state(&(ca, ka, cb, kb));
        Ok(())
    });
    for cap in 1..=run.pick(4, 6) {
        let d = run.pick(6, 12);
        let m = run.pick(150_000, 3_000_000);
        bfs(run, &format!("capacity {cap}"), &Sys { cap }, d, m);
    }
    // The same few operations over and over, and every history: what the set may remember besides its window counts.
    let (w, times) = (run.pick(3, 4), run.pick(40, 60));
    for (name, w, times) in [("again and again", w, times), ("every history", run.pick(5, 6), 1)] {
        explore(run, name, move |c: &mut mc::Ch| {
            let cap = 1 + c.pick(4) as u64;
            let menu = [A::Update(vec![0], 1), A::Update(vec![1, 2], 2), A::Update(vec![], 1), A::Update(vec![0, 1], cap as i64), A::Update(vec![3], cap as i64 - 1), A::Update(vec![2], cap as i64 + 3), A::Push(vec![1]), A::Push(vec![]), A::Clear, A::Reload];
            let l = if times == 1 { w } else { 1 + c.pick(w) };
            let word: Vec<A> = (0..l).map(|_| c.of(&menu)).collect();
            let mut a = Ars::new(cap as usize);
            let mut s = Spec::new(cap);
            c.op(|| format!("capacity {cap}, {times} times {word:?}"));
            for _ in 0..times {
                for x in &word {
                    apply(&mut a, &mut s, x)?;
                }
            }
            c.ops(times as u64 * l as u64);
            c.state(&(cap, format!("{word:?}")));
            Ok(())
        });
    }
    // Many identities in one period, listed several times, some of them in the next ones too.
    explore(run, "crowded", |c| {
        let n = c.of(&[1u32, 7, 8, 9, 16, 31, 32, 33, 40, 41, 50, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000]);
        let cap = c.of(&[1usize, 2, 3, 7]);
        let next = c.of(&[0, 1, n / 2, n]);
        let twice = c.flag();
        let mut a: ActiveReputationSet<u32> = ActiveReputationSet::new(cap);
        let ids: Vec<u32> = (0..n).chain(if twice { 0..n } else { 0..0 }).collect();
        let by_epoch = c.flag();
        let mut e = 0;
        let mut go = |a: &mut ActiveReputationSet<u32>, ids: Vec<u32>| -> Result<(), String> {
            e += 1;
            if by_epoch {
                a.update(ids, e).map_err(|x| x.to_string())
            } else {
                a.push_activity(ids);
                Ok(())
            }
        };
        go(&mut a, ids)?;
        same!(a.active_identities_number(), n as usize, "active of {n}");
        for k in 1..=cap {
            go(&mut a, (0..next).map(|i| n - 1 - i).collect())?;
            let want: BTreeSet<u32> = if k < cap { (0..n).collect() } else { (n - next..n).collect() };
            ensure!(a.active_identities().copied().collect::<BTreeSet<_>>() == want && a.active_identities_number() == want.len(), "of {n} identities, {} are active after {k} of {cap} periods with {next}", a.active_identities_number());
        }
        for k in 1..=cap {
            go(&mut a, vec![])?;
            same!(a.active_identities_number(), if k < cap { next as usize } else { 0 }, "active after {k} empty periods");
        }
        c.op(|| format!("{n} identities, then {next}, capacity {cap}"));
        c.state(&(n, cap, next, twice, by_epoch));
        Ok(())
    });
    // Realistic sizes: an identity that is active all the time, gaps at every place of interest.
    let caps: Vec<u64> = run.pick(vec![10, 255, 256, 257, 2000], vec![10, 100, 255, 256, 257, 1000, 2000, 65535]);
    explore(run, "long", |c| {
        let cap = c.of(&caps);
        let mut a = Ars::new(cap as usize);
        let mut s = Spec::new(cap);
        let every = c.of(&[1u64, 2, 3]);
        let gap = c.of(&[1i64, 2, cap as i64 / 2, cap as i64 - 1, cap as i64, cap as i64 + 1]);
        let n = cap + c.of(&[0u64, 1, 3]);
        for e in 1..=n {
            let ids: Vec<u8> = [0u8].into_iter().chain((e % every == 0).then_some(1)).chain((e == n / 2).then_some(2)).collect();
            if c.log_len() < 3 {
                c.op(|| format!("capacity {cap}, then a gap of {gap}"));
            }
            a.update(ids.clone(), e as u32).map_err(|x| x.to_string())?;
            s.push(&ids, 1);
            s.last_update = e as u32;
        }
        c.ops(n);
        compare(&a, &s)?;
        apply(&mut a, &mut s, &A::Update(vec![3], gap))?;
        for _ in 0..3 {
            apply(&mut a, &mut s, &A::Push(vec![4]))?;
        }
        // Everybody else leaves after a whole window without them.
        for k in 0..cap {
            a.push_activity(vec![5]);
            s.push(&[5], 1);
            if cap < 300 || k + 3 > cap || k < 3 {
                compare(&a, &s)?;
            }
        }
        c.ops(cap);
        same!(a.active_identities_number(), 1, "active after a whole window");
        // Then nobody at all, for more than two windows.
        for k in 0..2 * cap + 3 {
            a.push_activity(vec![]);
            s.push(&[], 1);
            ensure!(a.buffer_size() as u64 <= cap, "{} periods kept, capacity {cap}", a.buffer_size());
            if cap < 300 || k + 3 > cap && k < cap + 3 {
                compare(&a, &s)?;
            }
        }
        // One period after the other, with nobody in every other one.
        for k in 0..cap + 3 {
            let ids = if k % 2 == 0 { vec![] } else { vec![1] };
            a.push_activity(ids.clone());
            s.push(&ids, 1);
            if cap < 300 || k < 3 || k + 3 > cap {
                compare(&a, &s)?;
            }
        }
        c.ops(3 * cap);
        c.state(&(cap, every, gap, n));
        Ok(())
    });
}
