use mc::{Ch, Run, System, bfs, ensure, explore, same};
use std::collections::BTreeMap;
use witnet_reputation::TotalReputationSet;

pub type Trs = TotalReputationSet<u8, u32, u32>;

/// The specification: the packets, in order, and nothing else.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Spec(Vec<(u32, BTreeMap<u8, u32>)>);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    Zero,
    Minus(u32),
    Half,
    Keep,
    Double,
    More,
}
impl F {
    fn ap(self, v: u32) -> u32 {
        match self {
            F::Zero => 0,
            F::Minus(n) => v.saturating_sub(n),
            F::Half => v / 2,
            F::Keep => v,
            F::Double => v * 2,
            F::More => v + 1,
        }
    }
}

#[derive(Clone, Debug)]
pub enum A {
    Gain(u32, Vec<(u8, u32)>),
    Expire(u32),
    Pen(u8, F),
    Many(Vec<(u8, F)>),
    Clear,
    /// Serialize and load again.
    Reload,
}

impl Spec {
    fn get(&self, id: u8) -> u32 {
        self.0.iter().filter_map(|(_, m)| m.get(&id)).sum()
    }
    fn ids(&self) -> BTreeMap<u8, u32> {
        let mut r = BTreeMap::new();
        for (_, m) in &self.0 {
            for (k, v) in m {
                *r.entry(*k).or_default() += *v;
            }
        }
        r
    }
    fn gain(&mut self, a: u32, d: &[(u8, u32)]) -> Result<(), (u32, u32)> {
        let last = self.0.last().map(|x| x.0);
        if let Some(l) = last {
            if l > a {
                return Err((a, l));
            }
        }
        if last != Some(a) {
            self.0.push((a, BTreeMap::new()));
        }
        let m = &mut self.0.last_mut().unwrap().1;
        for (k, v) in d {
            if *v > 0 {
                *m.entry(*k).or_default() += v;
            }
        }
        Ok(())
    }
    fn expire(&mut self, a: u32) -> u32 {
        let gone: u32 = self.0.iter().filter(|x| x.0 <= a).flat_map(|x| x.1.values()).sum();
        self.0.retain(|x| x.0 > a);
        gone
    }
    /// One after the other, latest packets first; nothing changes when one of them is refused.
    fn many(&mut self, l: &[(u8, F)]) -> Result<u32, (u32, u32)> {
        self.many_seen(l).0
    }
    /// Also the value each function is asked about, in turn.
    fn many_seen(&mut self, l: &[(u8, F)]) -> (Result<u32, (u32, u32)>, Vec<u32>) {
        let mut seen = vec![];
        (self.many_log(l, &mut seen), seen)
    }
    fn many_log(&mut self, l: &[(u8, F)], seen: &mut Vec<u32>) -> Result<u32, (u32, u32)> {
        let mut n = self.clone();
        let mut total = 0;
        for (id, f) in l {
            let old = n.get(*id);
            seen.push(old);
            let new = f.ap(old);
            if new > old {
                return Err((old, new));
            }
            let mut rest = old - new;
            total += rest;
            for (_, m) in n.0.iter_mut().rev() {
                if let Some(v) = m.get_mut(id) {
                    let t = rest.min(*v);
                    *v -= t;
                    rest -= t;
                    if *v == 0 {
                        m.remove(id);
                    }
                }
            }
            assert_eq!(rest, 0);
        }
        *self = n;
        Ok(total)
    }
}

pub fn queue_of(t: &Trs) -> Vec<(u32, BTreeMap<u8, u32>)> {
    t.queue().map(|(a, m)| (*a, m.map(|(k, v)| (*k, *v)).collect())).collect()
}

/// Everything the set answers must follow from the packets.
fn compare(t: &Trs, s: &Spec) -> Result<(), String> {
    // Packets that hold nothing are not observable reputation.
    let strip = |q: Vec<(u32, BTreeMap<u8, u32>)>| q.into_iter().filter(|x| !x.1.is_empty()).collect::<Vec<_>>();
    same!(strip(queue_of(t)), strip(s.0.clone()), "packets");
    consistent(t)
}

/// The totals agree with the packets the set itself lists.
fn consistent(t: &Trs) -> Result<(), String> {
    let q = Spec(queue_of(t));
    let ids = q.ids();
    for id in 0..5u8 {
        same!(t.get(&id), q.get(id), "reputation of {id}");
    }
    same!(t.identities().map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>(), ids, "identities");
    same!(t.num_identities(), ids.len(), "number of identities");
    same!(t.get_total_sum(), ids.values().sum::<u32>(), "total reputation");
    same!(t.get_sum(&[0, 1, 1, 4]), q.get(0) + 2 * q.get(1) + q.get(4), "sum over identities");
    let mut last = None;
    for (a, _) in &q.0 {
        ensure!(last.is_none_or(|l| l < *a), "packets not ordered by expiration: {:?}", q.0);
        last = Some(*a);
    }
    Ok(())
}

fn reload(t: &Trs) -> Result<Trs, String> {
    let b = bincode::serialize(t).map_err(|e| e.to_string())?;
    let u: Trs = bincode::deserialize(&b).map_err(|e| e.to_string())?;
    ensure!(&u == t, "a stored set is not equal to the original");
    let j = serde_json::to_string(t).map_err(|e| e.to_string())?;
    let w: Trs = serde_json::from_str(&j).map_err(|e| e.to_string())?;
    ensure!(&w == t, "a set stored as JSON is not equal to the original");
    Ok(u)
}

fn apply(t: &mut Trs, s: &mut Spec, a: &A) -> Result<(), String> {
    match a {
        A::Gain(x, d) => {
            let r = t.gain(*x, d.clone()).map_err(|e| (e.alpha, e.max_alpha));
            same!(r, s.gain(*x, d), "gain");
        }
        A::Expire(x) => {
            let r = t.expire(x);
            same!(r, s.expire(*x), "expired amount");
        }
        A::Pen(id, f) => {
            let mut calls = 0;
            let r = t.penalize(id, |v| { calls += 1; f.ap(v) }).map_err(|e| (e.old_rep, e.new_rep));
            same!(r, s.many(&[(*id, *f)]), "penalized amount");
            same!(calls, 1, "times the penalty was computed");
        }
        A::Many(l) => {
            let seen = std::cell::RefCell::new(vec![]);
            let log = &seen;
            let r = t.penalize_many(l.iter().map(|(i, f)| (i, move |v| { log.borrow_mut().push(v); f.ap(v) }))).map_err(|e| (e.old_rep, e.new_rep));
            let (want, asked) = s.many_seen(l);
            same!(r, want, "penalized amount");
            same!(*seen.borrow(), asked, "reputations the penalties were computed from");
        }
        A::Clear => {
            t.clear();
            s.0.clear();
        }
        A::Reload => *t = reload(t)?,
    }
    compare(t, s)
}

#[derive(Clone)]
pub struct St {
    t: Trs,
    s: Spec,
}
// A state is looked at by one thread at a time, so a set that remembers things in cells will do as well.
unsafe impl Send for St {}
unsafe impl Sync for St {}

struct Sys {
    menu: Vec<A>,
    max_total: u32,
}
impl System for Sys {
    type S = St;
    type A = A;
    fn init(&self) -> Vec<St> {
        let e = St { t: Trs::new(), s: Spec::default() };
        // A start with history: built by the other constructor.
        let l = vec![(1u32, vec![(0u8, 2u32), (1, 1)]), (2, vec![(0, 1), (2, 3)]), (3, vec![(1, 2)])];
        let t = Trs::from_queue(l.clone()).unwrap();
        let mut s = Spec::default();
        for (a, d) in &l {
            s.gain(*a, d).unwrap();
        }
        vec![e, St { t, s }]
    }
    fn actions(&self, s: &St) -> Vec<A> {
        let room = s.s.ids().values().sum::<u32>() <= self.max_total;
        self.menu.iter().filter(|a| room || !matches!(a, A::Gain(..))).cloned().collect()
    }
    fn step(&self, s: &mut St, a: &A) -> Result<(), String> {
        apply(&mut s.t, &mut s.s, a)
    }
    fn key(&self, s: &St) -> u128 {
        mc::fp(&(&s.s, queue_of(&s.t)))
    }
    fn check(&self, s: &St) -> Result<(), String> {
        compare(&s.t, &s.s)
    }
}

fn gains(alphas: &[u32], ds: &[&[(u8, u32)]]) -> Vec<A> {
    alphas.iter().flat_map(|a| ds.iter().map(|d| A::Gain(*a, d.to_vec()))).collect()
}

const RELATIVE: usize = 14;
/// An operation at a time.
fn relative(k: usize, now: u32) -> A {
    match k {
        0 => A::Gain(now + 3, vec![(0, 3)]),
        1 => A::Gain(now + 3, vec![(1, 2), (0, 1), (2, 1)]),
        2 => A::Gain(now, vec![(1, 1)]),
        3 => A::Gain(now + 3, vec![]),
        4 => A::Expire(now),
        5 => A::Expire(now + 2),
        6 => A::Expire(now - 8),
        7 => A::Pen(0, F::Minus(2)),
        8 => A::Pen(1, F::Zero),
        9 => A::Many(vec![(1, F::Half), (0, F::Minus(1)), (1, F::Minus(1))]),
        10 => A::Pen(0, F::More),
        11 => A::Clear,
        12 => A::Gain(now + 9, vec![(3, 1)]),
        _ => A::Reload,
    }
}

pub fn balance(run: &mut Run) {
    let mut menu = gains(&[1, 2, 3, 4], &[&[], &[(0, 1)], &[(1, 2)], &[(0, 1), (1, 1)], &[(0, 1), (0, 2)], &[(2, 0), (1, 1)]]);
    menu.extend([A::Expire(0), A::Expire(1), A::Expire(2), A::Expire(3), A::Pen(0, F::Zero), A::Pen(0, F::Minus(1)), A::Pen(1, F::Half), A::Pen(3, F::Zero), A::Clear, A::Reload]);
    menu.push(A::Many(vec![(0, F::Minus(2)), (1, F::Minus(1))]));
    let d = run.pick(8, 12);
    let m = run.pick(400_000, 6_000_000);
    let t = run.pick(8, 12);
    bfs(run, "histories", &Sys { menu, max_total: t }, d, m);
    // No two histories are taken for one here: what the set may remember besides its packets counts.
    let d = run.pick(5, 6);
    explore(run, "every history", move |c: &mut Ch| {
        let (mut t, mut s) = (Trs::new(), Spec::default());
        for now in 0..d {
            let a = relative(c.pick(RELATIVE), 10 + now);
            c.op(|| format!("{a:?}"));
            apply(&mut t, &mut s, &a)?;
        }
        c.state(&s);
        Ok(())
    });
    // The same few operations over and over.
    let (w, times) = (run.pick(3, 4), run.pick(40, 60));
    explore(run, "again and again", move |c: &mut Ch| {
        let word: Vec<usize> = (0..1 + c.pick(w)).map(|_| c.pick(RELATIVE)).collect();
        let (mut t, mut s) = (Trs::new(), Spec::default());
        c.op(|| format!("{times} times {:?}", word.iter().map(|a| relative(*a, 10)).collect::<Vec<_>>()));
        let mut now = 10;
        for _ in 0..times {
            for a in &word {
                apply(&mut t, &mut s, &relative(*a, now))?;
                now += 1;
            }
        }
        c.ops(times as u64 * word.len() as u64);
        c.state(&(&s, &word));
        Ok(())
    });
    // Long histories: as many packets and identities as the choices allow.
    explore(run, "long", |c| {
        let n = c.of(&[1u32, 2, 7, 8, 9, 16, 17, 33]);
        let ids = c.of(&[1u32, 2, 3, 9]);
        let step = c.of(&[1u32, 3]);
        let mut t = Trs::new();
        let mut s = Spec::default();
        for i in 0..n {
            let d: Vec<(u8, u32)> = (0..ids).filter(|k| (i + k) % step == 0).map(|k| (k as u8, 1 + (i * 7 + k * 3) % 5)).collect();
            apply(&mut t, &mut s, &A::Gain(i / 2 * 3 + i, d))?;
        }
        for _ in 0..run_len(n) {
            let a = match c.pick(5) {
                0 => A::Expire(c.of(&[0, 4, n, 2 * n, u32::MAX])),
                1 => A::Pen(0, c.of(&[F::Zero, F::Half, F::Minus(n)])),
                2 => A::Many((0..ids as u8).map(|k| (k, F::Half)).collect()),
                3 => A::Many((0..ids as u8).rev().map(|k| (k, F::Minus(3))).collect()),
                _ => A::Gain(3 * n, vec![(0, 1), (ids as u8, 2)]),
            };
            c.op(|| format!("{a:?}"));
            apply(&mut t, &mut s, &a)?;
            c.state(&s);
        }
        c.outcome(if s.0.is_empty() { "everything expired" } else { "reputation left" });
        // Starting over: nothing of the past is in the way.
        apply(&mut t, &mut s, &A::Clear)?;
        apply(&mut t, &mut s, &A::Gain(0, vec![(1, 3)]))?;
        same!(t.expire(&u32::MAX), 3, "expired after starting over");
        Ok(())
    });
    // One slot that is gained in time and again, by more and more identities.
    explore(run, "one slot", |c: &mut Ch| {
        let n = c.of(&[1usize, 2, 3, 5, 6, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200]);
        let (mut t, mut s) = (Trs::new(), Spec::default());
        let each = c.flag();
        let rounds = 1 + c.pick(3) as u32;
        apply(&mut t, &mut s, &A::Gain(1, vec![(0, 1)]))?;
        for k in 0..rounds {
            let d: Vec<(u8, u32)> = (0..n).map(|i| (i as u8, 1 + (i as u32 + k) % 3)).collect();
            if each {
                for x in d {
                    apply(&mut t, &mut s, &A::Gain(2, vec![x]))?;
                }
            } else {
                apply(&mut t, &mut s, &A::Gain(2, d))?;
            }
        }
        c.op(|| format!("{n} identities, {rounds} times"));
        apply(&mut t, &mut s, &A::Reload)?;
        let some = c.of(&[1usize, n / 2, n]);
        apply(&mut t, &mut s, &A::Many((0..some).map(|i| (i as u8, F::Minus(2))).collect()))?;
        apply(&mut t, &mut s, &A::Gain(2, (0..n).map(|i| (i as u8, 1)).collect()))?;
        apply(&mut t, &mut s, &A::Expire(1))?;
        c.state(&s);
        apply(&mut t, &mut s, &A::Expire(2))
    });
    // Two sets are equal exactly when they hold the same packets.
    let pk = run.pick(2, 3);
    explore(run, "equality", move |c: &mut Ch| {
        let menu = [(1u32, vec![(0u8, 1u32)]), (2, vec![(0, 1)]), (2, vec![(1, 1)]), (2, vec![(0, 1), (1, 1)]), (3, vec![(0, 2)])];
        let make = |c: &mut Ch| {
            let (mut t, mut s) = (Trs::new(), Spec::default());
            for (a, d) in c.seq(&menu, pk) {
                let _ = apply(&mut t, &mut s, &A::Gain(a, d));
            }
            (t, s)
        };
        let (a, b) = (make(c), make(c));
        c.op(|| format!("{:?} == {:?}", a.1.0, b.1.0));
        same!(a.0 == b.0, a.1 == b.1, "equality of {:?} and {:?}", a.1.0, b.1.0);
        c.state(&(&a.1, &b.1));
        Ok(())
    });
    // However it was built, it goes on alike.
    explore(run, "built from a list", |c: &mut Ch| {
        let n = c.pick(9);
        let full = c.subset(n);
        let l: Vec<(u32, Vec<(u8, u32)>)> = (0..n).map(|i| (2 * i as u32, if full >> i & 1 == 1 { vec![(i as u8 % 4, 1 + i as u32), (4, 1)] } else { vec![] })).collect();
        let mut t = Trs::from_queue(l.clone()).map_err(|e| format!("{e:?}"))?;
        let mut s = Spec::default();
        for (a, d) in &l {
            s.gain(*a, d).unwrap();
        }
        c.op(|| format!("{l:?}"));
        compare(&t, &s)?;
        let mut u = Trs::new();
        for (a, d) in &l {
            u.gain(*a, d.clone()).map_err(|e| format!("{e:?}"))?;
        }
        ensure!(t == u, "built from a list or one by one, the sets differ");
        for a in [2 * n as u32, (2 * n as u32).saturating_sub(2), (2 * n as u32).saturating_sub(3), 0] {
            apply(&mut t, &mut s, &A::Gain(a, vec![(0, 1)]))?;
        }
        c.state(&s);
        Ok(())
    });
    crowd(run);
}
/// As many expiry slots as a year of blocks has, and one operation over all of them.
fn crowd(run: &mut Run) {
    let sizes: Vec<u32> = run.pick(vec![127, 128, 129, 255, 256, 257, 999, 1023, 1024, 1025, 2049, 4097, 10_001, 65_537, 70_001], vec![128, 256, 1024, 1025, 4096, 4097, 10_001, 65_537, 131_073]);
    explore(run, "very long", move |c| {
        let n = c.of(&sizes);
        let per = c.of(&[1u32, 3]);
        let mut t: TotalReputationSet<u32, u32, u32> = TotalReputationSet::new();
        // Identity i % per gains one packet in every slot; identity 1000 + i gains one in its own.
        for i in 0..n {
            t.gain(i, (0..per).map(|k| (k, 2)).chain([(1000 + i, 1)])).map_err(|e| format!("{e:?}"))?;
        }
        same!(t.get_total_sum(), n * (2 * per + 1), "total of {n} slots");
        same!(t.num_identities() as u32, n + per, "identities");
        let cut = c.of(&[0u32, 1, 50, 99, 100]) * n / 100;
        let op = c.pick(3);
        c.op(|| format!("{n} slots of {per}, operation {op} at {cut}"));
        c.ops(n as u64);
        c.state(&(n, per, cut, op));
        match op {
            0 if cut > 0 => {
                same!(t.expire(&(cut - 1)), cut * (2 * per + 1), "expired with {cut} of {n} slots due");
                for i in 0..n {
                    same!(t.get(&(1000 + i)), (i >= cut) as u32, "identity of slot {i} after {cut} slots are due");
                }
                same!(t.get(&0), 2 * (n - cut), "identity with a packet in each slot");
            }
            1 => {
                // The latest packets are taken, across as many slots as it takes.
                same!(t.penalize(&0, |v| v - 2 * cut).map_err(|e| format!("{e:?}"))?, 2 * cut, "taken");
                let last = n - cut;
                if last > 0 {
                    t.expire(&(last - 1));
                }
                same!(t.get(&0), 0, "the packets that were left were not the oldest");
                same!(t.num_identities() as u32, cut + if cut > 0 { per - 1 } else { 0 }, "identities left");
            }
            2 => {
                // Everyone at once.
                let all: Vec<u32> = (0..per).chain((0..cut).map(|i| 1000 + i)).collect();
                let taken = t.penalize_many(all.iter().map(|i| (i, |v: u32| v / 2))).map_err(|e| format!("{e:?}"))?;
                same!(taken, per * n + cut, "taken from everyone");
                for i in 0..n {
                    same!(t.get(&(1000 + i)), (i >= cut) as u32, "identity of slot {i} after {cut} were penalized");
                }
                same!(t.get_sum(&(0..per).collect::<Vec<_>>()), per * n, "left to the others");
                same!(t.expire(&n), per * n + (n - cut), "expired at the end");
                same!(t.num_identities(), 0, "identities at the end");
            }
            _ => {}
        }
        Ok(())
    });
}
fn run_len(n: u32) -> u32 {
    if n > 9 { 2 } else { 3 }
}

/// Every assignment of packets to a small queue, then every penalization.
pub fn penalize(run: &mut Run) {
    let packets = run.pick(3, 4);
    let ids = 3u8;
    explore(run, "packets", move |c: &mut Ch| {
        let mut t = Trs::new();
        let mut s = Spec::default();
        for p in 0..packets {
            let d: Vec<(u8, u32)> = (0..ids).map(|i| (i, if i == 2 { c.of(&[0, 5]) } else { c.of(&[0, 1, 3]) })).collect();
            apply(&mut t, &mut s, &A::Gain(10 * p as u32, d))?;
        }
        let fs = [F::Zero, F::Minus(1), F::Minus(3), F::Minus(4), F::Half, F::Keep];
        let l: Vec<(u8, F)> = match c.pick(4) {
            0 => vec![(c.of(&[0, 1, 2]), c.of(&fs))],
            1 => vec![(0, c.of(&fs)), (1, c.of(&fs[..4]))],
            2 => vec![(1, c.of(&fs[..3])), (2, c.of(&fs[..3])), (0, c.of(&fs[..3]))],
            _ => vec![(2, F::Minus(4)), (4, F::Zero), (1, c.of(&fs)), (0, F::Minus(2))],
        };
        c.op(|| format!("{:?} penalize {l:?}", s.0));
        let before = s.clone();
        let mut alone = t.clone();
        apply(&mut t, &mut s, &A::Many(l.clone()))?;
        c.state(&(&s, &before));
        // The order of the identities does not matter, nor does doing them one by one.
        let mut s2 = before.clone();
        for (i, f) in l.iter().rev() {
            apply(&mut alone, &mut s2, &A::Pen(*i, *f))?;
        }
        ensure!(alone == t, "penalizing one by one gives {:?}, at once gives {:?}", queue_of(&alone), queue_of(&t));
        c.outcome(if before == s { "nothing taken" } else if s.0.iter().all(|p| p.1.is_empty()) { "everything taken" } else { "some taken" });
        // What is left expires when it was going to.
        for e in [0, 10, 20, 30] {
            apply(&mut t, &mut s, &A::Expire(e))?;
        }
        Ok(())
    });
    // The same identity several times in one call, among others.
    let times = run.pick(5, 6);
    explore(run, "several times", move |c: &mut Ch| {
        let mut t = Trs::new();
        let mut s = Spec::default();
        for p in 0..4u32 {
            apply(&mut t, &mut s, &A::Gain(p, vec![(0, 3), (1, p), (2, 1)]))?;
        }
        let l = c.seq(&[(0u8, F::Minus(2)), (0, F::Half), (0, F::Zero), (1, F::Minus(1)), (2, F::Keep), (2, F::Minus(1))], times);
        c.op(|| format!("{l:?}"));
        apply(&mut t, &mut s, &A::Many(l))?;
        c.state(&s);
        for e in 0..4 {
            apply(&mut t, &mut s, &A::Expire(e))?;
        }
        Ok(())
    });
    // Many identities in one call, one of them again at some distance.
    explore(run, "again after others", |c: &mut Ch| {
        let n = c.of(&[1u8, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 129, 200]);
        let at = c.of(&[0, n / 2, n - 1]);
        let (f, g) = (c.of(&[F::Minus(1), F::Half, F::Keep]), c.of(&[F::Minus(2), F::Half, F::Zero, F::Double]));
        let more = c.of(&[0u8, 1, n / 2]);
        let (mut t, mut s) = (Trs::new(), Spec::default());
        for p in 0..3u32 {
            apply(&mut t, &mut s, &A::Gain(p, (0..n).map(|i| (i, 2 + (i as u32 + p) % 3)).collect()))?;
        }
        let l: Vec<(u8, F)> = (0..n).map(|i| (i, f)).chain([(at, g)]).chain((0..more).map(|i| (i, F::Minus(1)))).chain([(at, F::Minus(1))]).collect();
        c.op(|| format!("{n} identities {f:?}, then {at} {g:?}, {more} more"));
        apply(&mut t, &mut s, &A::Many(l))?;
        c.state(&(&s, n, at, more));
        for e in 0..3 {
            apply(&mut t, &mut s, &A::Expire(e))?;
        }
        Ok(())
    });
    explore(run, "many times", |c: &mut Ch| {
        let mut t = Trs::new();
        let mut s = Spec::default();
        for p in 0..30u32 {
            apply(&mut t, &mut s, &A::Gain(p, vec![(0, 20), (1, p % 3), (2, 1)]))?;
        }
        let n = c.pick(300);
        let l: Vec<_> = (0..n).map(|i| ((i % 7 / 5) as u8, F::Minus(2))).collect();
        c.op(|| format!("{n} penalties in one call"));
        apply(&mut t, &mut s, &A::Many(l))?;
        c.state(&s);
        Ok(())
    });
    let wide = run.pick(12u32, 24);
    explore(run, "wide", move |c: &mut Ch| {
        let (np, ni) = (c.pick(wide as usize) as u32 + 1, c.pick(wide as usize) as u32 + 1);
        let mut t = Trs::new();
        let mut s = Spec::default();
        let sparse = c.of(&[1u32, 2, 5]);
        for p in 0..np {
            apply(&mut t, &mut s, &A::Gain(p, (0..ni).filter(|i| (i + p) % sparse == 0).map(|i| (i as u8, 1 + (i + p) % 4)).collect()))?;
        }
        let some = c.of(&[1u32, 2, ni, ni + 1]);
        let f = c.of(&[F::Zero, F::Half, F::Minus(1), F::Minus(6)]);
        apply(&mut t, &mut s, &A::Many((0..some).map(|i| (i as u8, f)).collect()))?;
        c.op(|| format!("{np} packets, {ni} identities, {some} penalized {f:?}"));
        c.state(&s);
        Ok(())
    });
}

/// Refused operations change nothing; repeated identities in one call add up.
pub fn atomic(run: &mut Run) {
    let mut menu = gains(&[1, 2], &[&[(0, 2)], &[(0, 1), (1, 2)], &[(1, 1), (1, 1)]]);
    menu.push(A::Expire(1));
    for a in [F::Zero, F::Minus(1), F::Double, F::Keep, F::More] {
        menu.push(A::Pen(0, a));
        menu.push(A::Pen(3, a));
        for b in [F::Zero, F::Minus(1), F::Double] {
            menu.push(A::Many(vec![(0, a), (1, b)]));
            menu.push(A::Many(vec![(1, a), (0, b)]));
            menu.push(A::Many(vec![(0, a), (0, b)]));
            menu.push(A::Many(vec![(0, a), (1, b), (0, F::Minus(1))]));
        }
    }
    let d = run.pick(6, 9);
    let m = run.pick(200_000, 4_000_000);
    let t = run.pick(8, 12);
    bfs(run, "refusals", &Sys { menu, max_total: t }, d, m);
    explore(run, "out of order", |c| {
        let l: Vec<(u32, Vec<(u8, u32)>)> = (0..3).map(|_| (c.of(&[1u32, 2, 3, u32::MAX]), c.of(&[vec![], vec![(0u8, 1u32)], vec![(0, 1), (1, 2)]]))).collect();
        let mut s = Spec::default();
        let want = l.iter().try_for_each(|(a, d)| s.gain(*a, d));
        let r = Trs::from_queue(l.clone());
        c.op(|| format!("{l:?}"));
        c.state(&l);
        same!(r.as_ref().map(|_| ()).map_err(|e| (e.alpha, e.max_alpha)), want, "building from {l:?}");
        if let Ok(t) = r {
            compare(&t, &s)?;
            c.outcome("accepted");
        } else {
            c.outcome("refused");
        }
        Ok(())
    });
}
