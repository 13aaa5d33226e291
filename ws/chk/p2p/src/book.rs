//! C44: the address book.
use mc::{Ch, Run, System, bfs, ensure, explore, fp, same};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};
use std::sync::Mutex;
use std::time::Duration;
use witnet_config::config::Config;
use witnet_p2p::peers::*;

fn last(parts: &[&[u8]]) -> u8 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize()[31]
}

/// The address in bytes, its network group (first half), and its host part with the port.
fn parts(a: &SocketAddr) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let ip = match a.ip() {
        IpAddr::V4(x) => x.octets().to_vec(),
        IpAddr::V6(x) => x.octets().to_vec(),
    };
    let (g, h) = ip.split_at(ip.len() / 2);
    let host = [h, &a.port().to_be_bytes()].concat();
    (ip.clone(), g.to_vec(), host)
}

/// As documented: 64 buckets of 64 slots; a group reaches at most 4 buckets.
fn tried_slot(sk: u64, a: &SocketAddr) -> u16 {
    let sk = sk.to_be_bytes();
    let (ip, group, host) = parts(a);
    let i = last(&[&sk, &ip]) % 4;
    u16::from(last(&[&sk, &group, &[i]]) % 64) * 64 + u16::from(last(&[&sk, &host, &[i]]) % 64)
}

/// As documented: 256 buckets of 64 slots; a source's group reaches at most 32 buckets.
fn new_slot(sk: u64, a: &SocketAddr, src: &SocketAddr) -> u16 {
    let sk = sk.to_be_bytes();
    let (_, group, host) = parts(a);
    let (_, from, _) = parts(src);
    let i = last(&[&sk, &from, &group]) % 32;
    u16::from(last(&[&sk, &from, &[i]])) * 64 + u16::from(last(&[&sk, &host, &[i]]) % 64)
}

fn addr(s: &str) -> SocketAddr {
    s.parse().unwrap()
}

const SK: u64 = 0x0123_4567_89AB_CDEF;

fn fresh(sk: u64, ice: u64) -> Peers {
    let mut config = Config::default();
    config.connections.bucketing_ice_period = Duration::from_secs(ice);
    config.connections.server_addr = addr("52.1.2.3:21337");
    let mut p = Peers::from_config(&config);
    p.sk = sk;
    p
}

fn slots(run: &mut Run) {
    let keys: &[u64] = &[0, 1, SK, u64::MAX];
    let groups = ["52.12", "0.0", "255.255", "10.0"];
    explore(run, "slots of hosts", |c: &mut Ch| {
        let sk = c.of(keys);
        let g = c.of(&groups);
        let part = c.pick(16) as u32;
        let p = fresh(sk, 1000);
        let src = addr("77.5.4.3:21337");
        for h in part * 4096..(part + 1) * 4096 {
            for port in [21337u16, 1, 0xFFFF] {
                let a = addr(&format!("{g}.{}.{}:{port}", h >> 8, h & 255));
                same!(p.tried_bucket_index(&a), tried_slot(sk, &a), "the tried slot of {a}");
                same!(p.new_bucket_index(&a, &src), new_slot(sk, &a, &src), "the new slot of {a} from {src}");
                ensure!(p.tried_bucket_index(&a) < 4096, "the tried slot of {a}");
                ensure!(p.new_bucket_index(&a, &src) < 16384, "the new slot of {a}");
            }
        }
        c.ops(4096 * 3);
        Ok(())
    });
    explore(run, "slots of ports", |c: &mut Ch| {
        let sk = c.of(keys);
        let ip = c.of(&["52.12.7.9", "0.0.0.0", "255.255.255.255", "[2001:db8:1:2:3:4:5:6]", "[::1]", "[::]"]);
        let part = c.pick(16) as u32;
        let p = fresh(sk, 1000);
        let srcs = [addr("77.5.4.3:21337"), addr("[2001:db8::1]:5")];
        for port in part * 4096..(part + 1) * 4096 {
            let a = addr(&format!("{ip}:{port}"));
            same!(p.tried_bucket_index(&a), tried_slot(sk, &a), "the tried slot of {a}");
            for src in &srcs {
                same!(p.new_bucket_index(&a, src), new_slot(sk, &a, src), "the new slot of {a} from {src}");
            }
        }
        c.ops(4096);
        Ok(())
    });
    explore(run, "reach of a group", |c: &mut Ch| {
        let sk = c.of(keys);
        let p = fresh(sk, 1000);
        if c.flag() {
            // every address of a group, from everywhere
            let g = c.of(&groups);
            let mut buckets = BTreeSet::new();
            for h in 0..65536u32 {
                buckets.insert(p.tried_bucket_index(&addr(&format!("{g}.{}.{}:21337", h >> 8, h & 255))) / 64);
            }
            ensure!(buckets.len() <= 4, "the addresses of {g} reach {} tried buckets", buckets.len());
        } else {
            // whatever a source's group announces
            let src = c.of(&["77.5.4.3:21337", "[2001:db8::1]:5"]);
            let src = addr(src);
            let mut buckets = BTreeSet::new();
            for h in 0..65536u32 {
                buckets.insert(p.new_bucket_index(&addr(&format!("{}.{}.7.8:21337", h >> 8, h & 255)), &src) / 64);
            }
            ensure!(buckets.len() <= 32, "the addresses announced by {src} reach {} new buckets", buckets.len());
        }
        c.ops(65536);
        Ok(())
    });
    explore(run, "ranges", |c: &mut Ch| {
        let limit = c.pick(256) as u8;
        for a in ["0.0.0.0:0", "255.255.255.255:1", "127.0.0.1:2", "170.85.204.51:3", "85.170.51.204:4", "1.2.3.4:5", "128.0.0.0:6"] {
            let a = addr(a);
            let IpAddr::V4(ip) = a.ip() else { unreachable!() };
            let bits = u32::from(limit.min(32));
            let mask = if bits == 0 { 0 } else { u32::MAX << (32 - bits) };
            same!(u32::from_be_bytes(get_range_address(&a, limit)), u32::from(ip) & mask, "the /{limit} of {a}");
        }
        get_range_address(&addr("[2001:db8::1]:5"), limit);
        c.ops(7);
        Ok(())
    });
}

#[derive(Clone, Debug)]
enum Op {
    AddNew(Vec<usize>, Option<usize>),
    AddTried(usize),
    RemoveTried(Vec<usize>, bool),
    RemoveNew(Vec<usize>),
    Ice(usize),
    RemoveIce(Vec<usize>),
    Iced(usize),
    Melt,
    Wait,
    Bootstrapped,
    Clear(u8),
    Restart,
}

type Slots = BTreeMap<u16, (SocketAddr, i64)>;

#[derive(Clone, Hash, PartialEq, Debug)]
struct Spec {
    bootstrapped: bool,
    period: i64,
    ice: BTreeMap<SocketAddr, i64>,
    new: Slots,
    tried: Slots,
}

#[derive(Clone)]
struct State {
    book: Peers,
    spec: Spec,
    start: i64,
    now: i64,
}

impl Spec {
    fn ice_period(&self) -> i64 {
        if self.bootstrapped { self.period } else { 1800 }
    }
    /// Whether an address is still on ice; one that is not any more is forgotten.
    fn iced(&mut self, a: &SocketAddr, now: i64) -> bool {
        match self.ice.get(a) {
            Some(t) if now - t > self.ice_period() => {
                self.ice.remove(a);
                false
            }
            Some(_) => true,
            None => false,
        }
    }
}

struct Histories {
    addrs: Vec<SocketAddr>,
    ops: Vec<Op>,
    ice: u64,
    wait: i64,
}

/// Addresses: 0 and 1 share a tried slot, 2 and 3 share a new slot when announced by 4, 5 is this
/// node's own, 6 is no address.
fn addresses() -> Vec<SocketAddr> {
    let mut v = vec![addr("10.1.0.1:21337")];
    let slot = tried_slot(SK, &v[0]);
    v.push((1..).map(|i: u32| addr(&format!("11.{}.{}.{}:21337", i >> 16, (i >> 8) & 255, i & 255))).find(|a| tried_slot(SK, a) == slot).unwrap());
    let src = addr("[2001:db8::7]:21337");
    v.push(addr("12.1.0.1:21337"));
    let slot = new_slot(SK, &v[2], &src);
    v.push((1..).map(|i: u32| addr(&format!("13.{}.{}.{}:21337", i >> 16, (i >> 8) & 255, i & 255))).find(|a| new_slot(SK, a, &src) == slot).unwrap());
    v.push(src);
    v.push(addr("52.1.2.3:21337"));
    v.push(addr("0.0.0.0:21337"));
    v
}

fn sorted(v: Vec<SocketAddr>) -> Vec<SocketAddr> {
    let mut v = v;
    v.sort();
    v
}

impl System for Histories {
    type S = State;
    type A = Op;
    fn init(&self) -> Vec<State> {
        let spec = Spec { bootstrapped: false, period: self.ice as i64, ice: Default::default(), new: Default::default(), tried: Default::default() };
        let start = witnet_time();
        vec![State { book: fresh(SK, self.ice), spec, start, now: 0 }]
    }
    fn actions(&self, _: &State) -> Vec<Op> {
        self.ops.clone()
    }
    fn step(&self, s: &mut State, op: &Op) -> Result<(), String> {
        let list = |v: &[usize]| v.iter().map(|i| self.addrs[*i]).collect::<Vec<_>>();
        let usable = |a: &SocketAddr| !a.ip().is_unspecified();
        let now = s.now;
        match op {
            Op::AddNew(v, src) => {
                let src = src.map(|i| self.addrs[i]);
                let out = s.book.add_to_new(list(v), src).map_err(|e| e.to_string())?;
                let mut gone = vec![];
                for a in list(v) {
                    if usable(&a) && a != self.addrs[5] && !s.spec.iced(&a, now) && s.spec.tried.get(&tried_slot(SK, &a)).map(|x| x.0) != Some(a) {
                        if let Some(old) = s.spec.new.insert(new_slot(SK, &a, &src.unwrap_or(a)), (a, now)) {
                            gone.push(old.0);
                        }
                    }
                }
                same!(out, gone, "the addresses that were displaced");
            }
            Op::AddTried(i) => {
                let a = self.addrs[*i];
                let out = s.book.add_to_tried(a).map_err(|e| e.to_string())?;
                let mut gone = None;
                if usable(&a) && !s.spec.iced(&a, now) {
                    gone = s.spec.tried.insert(tried_slot(SK, &a), (a, now)).map(|x| x.0);
                }
                same!(out, gone, "the address that was displaced");
            }
            Op::RemoveTried(v, ice) => {
                let out = s.book.remove_from_tried(&list(v), *ice);
                let mut gone = vec![];
                for a in list(v) {
                    if *ice {
                        s.spec.ice.insert(a, now);
                    }
                    let slot = tried_slot(SK, &a);
                    if s.spec.tried.get(&slot).is_some_and(|x| x.0 == a) {
                        s.spec.tried.remove(&slot);
                        gone.push(a);
                    }
                }
                same!(out, gone, "the addresses that were removed");
            }
            Op::RemoveNew(v) => {
                let slots: Vec<u16> = list(v).iter().map(|a| new_slot(SK, a, &self.addrs[4])).collect();
                let out = s.book.remove_from_new_with_index(&slots);
                let gone: Vec<_> = slots.iter().filter_map(|i| s.spec.new.remove(i)).map(|x| x.0).collect();
                same!(out, gone, "the addresses that were removed");
            }
            Op::Ice(i) => {
                s.book.ice_peer_address(&self.addrs[*i]);
                s.spec.ice.insert(self.addrs[*i], now);
            }
            Op::RemoveIce(v) => {
                s.book.remove_many_from_ice(&list(v));
                for a in list(v) {
                    s.spec.ice.remove(&a);
                }
            }
            Op::Iced(i) => {
                let a = self.addrs[*i];
                same!(s.book.ice_bucket_contains(&a), s.spec.iced(&a, now), "whether {a} is on ice");
            }
            Op::Melt => {
                let out = s.book.extract_melted_peers_from_ice_bucket();
                let all: Vec<_> = s.spec.ice.keys().copied().collect();
                let gone: Vec<_> = all.into_iter().filter(|a| !s.spec.iced(a, now)).collect();
                same!(sorted(out), sorted(gone), "the addresses that melted");
            }
            Op::Wait => {
                // time passes: everything gets older
                s.now += self.wait;
                for t in s.book.ice_bucket.values_mut() {
                    *t -= self.wait;
                }
                for t in s.book.new_bucket.values_mut().chain(s.book.tried_bucket.values_mut()) {
                    t.timestamp -= self.wait;
                }
            }
            Op::Bootstrapped => {
                s.book.bootstrapped = true;
                s.spec.bootstrapped = true;
            }
            Op::Clear(i) => match i {
                0 => {
                    s.book.clear_new_bucket();
                    s.spec.new.clear();
                }
                1 => {
                    s.book.clear_tried_bucket();
                    s.spec.tried.clear();
                }
                _ => {
                    s.book.clear_ice_bucket();
                    s.spec.ice.clear();
                }
            },
            Op::Restart => {
                let bytes = bincode::serialize(&s.book).map_err(|e| e.to_string())?;
                let mut back: Peers = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
                // the period is configuration and is not stored
                ensure!(back.ice_period >= Duration::from_secs(1), "no ice period after a restart");
                back.ice_period = s.book.ice_period;
                same!((back.sk, back.server_address), (s.book.sk, s.book.server_address), "what was stored");
                s.book = back;
            }
        }
        Ok(())
    }
    fn key(&self, s: &State) -> u128 {
        let age = |m: &Slots| m.iter().map(|(k, (a, t))| (*k, *a, s.now - t)).collect::<Vec<_>>();
        fp(&(s.spec.bootstrapped, s.spec.ice.iter().map(|(a, t)| (*a, s.now - t)).collect::<Vec<_>>(), age(&s.spec.new), age(&s.spec.tried)))
    }
    fn check(&self, s: &State) -> Result<(), String> {
        let late = witnet_time() - s.start;
        let at = |t: i64, spec: i64, what: &dyn std::fmt::Display| -> Result<(), String> {
            // `t` is the clock's time shifted by the time waited since
            let t = t + s.now - s.start;
            ensure!(t >= spec && t <= spec + late, "{what} is from {t}, not from {spec}");
            Ok(())
        };
        same!(s.book.new_bucket.keys().copied().collect::<BTreeSet<_>>(), s.spec.new.keys().copied().collect(), "the new slots in use");
        same!(s.book.tried_bucket.keys().copied().collect::<BTreeSet<_>>(), s.spec.tried.keys().copied().collect(), "the tried slots in use");
        for (i, (a, t)) in &s.spec.new {
            ensure!(s.book.new_bucket_contains(*i), "new slot {i} is empty");
            same!(s.book.new_bucket_get_address(*i), Some(*a), "the address in new slot {i}");
            at(s.book.new_bucket_get_timestamp(*i).unwrap_or(i64::MIN), *t, a)?;
        }
        for (i, (a, t)) in &s.spec.tried {
            ensure!(s.book.tried_bucket_contains(*i), "tried slot {i} is empty");
            same!(s.book.tried_bucket_get_address(*i), Some(*a), "the address in tried slot {i}");
            at(s.book.tried_bucket_get_timestamp(*i).unwrap_or(i64::MIN), *t, a)?;
        }
        for i in self.addrs.iter().map(|a| tried_slot(SK, a)) {
            if !s.spec.tried.contains_key(&i) {
                ensure!(!s.book.tried_bucket_contains(i) && s.book.tried_bucket_get_address(i).is_none() && s.book.tried_bucket_get_timestamp(i).is_none(), "tried slot {i} is not empty");
            }
        }
        for i in self.addrs.iter().map(|a| new_slot(SK, a, &self.addrs[4])) {
            if !s.spec.new.contains_key(&i) {
                ensure!(!s.book.new_bucket_contains(i) && s.book.new_bucket_get_address(i).is_none() && s.book.new_bucket_get_timestamp(i).is_none(), "new slot {i} is not empty");
            }
        }
        same!(s.book.ice_bucket.keys().copied().collect::<BTreeSet<_>>(), s.spec.ice.keys().copied().collect(), "the addresses on ice");
        for (a, t) in &s.spec.ice {
            at(s.book.ice_bucket[a], *t, a)?;
        }
        same!(s.book.bootstrapped, s.spec.bootstrapped, "bootstrapped");
        same!(s.book.current_ice_period(), s.spec.ice_period(), "the ice period");
        same!(sorted(s.book.get_all_from_tried().unwrap()), sorted(s.spec.tried.values().map(|x| x.0).collect()), "the tried addresses");
        same!(sorted(s.book.get_all_from_new().unwrap()), sorted(s.spec.new.values().map(|x| x.0).collect()), "the new addresses");
        ensure!(!s.spec.new.values().any(|x| x.0 == self.addrs[5] || x.0 == self.addrs[6]), "an unusable address");
        // whatever is asked for (whatever is drawn: see `draws`)
        rand::drive(Some(Box::new(|| 0)));
        let all: Vec<_> = s.spec.new.values().chain(s.spec.tried.values()).map(|x| x.0).collect();
        for n in 0..=all.len() + 1 {
            let got = s.book.get_random_peers(n).map_err(|e| e.to_string())?;
            same!(got.len(), n.min(all.len()), "the number of random peers");
            let mut left = all.clone();
            for a in got {
                let Some(i) = left.iter().position(|x| *x == a) else { return Err(format!("{a} is drawn, or drawn again")) };
                left.swap_remove(i);
            }
        }
        match s.book.get_new_random_peer() {
            None => ensure!(s.spec.new.is_empty(), "no new peer is found"),
            Some((i, a)) => same!(s.spec.new.get(&i).map(|x| x.0), Some(a), "the new peer that was drawn"),
        }
        rand::drive(None);
        Ok(())
    }
}

/// Seconds on the clock the book reads.
fn witnet_time() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

fn draws(run: &mut Run) {
    let most = 2;
    let seen: Mutex<BTreeSet<(usize, usize, usize, Vec<usize>)>> = Mutex::new(BTreeSet::new());
    // one book per size, so that the order of its entries is the same in all executions
    let addr_of = |i: usize| addr(&format!("20.{i}.0.1:21337"));
    let mut books = vec![];
    for n in 0..=most {
        for t in 0..=most {
            let mut p = fresh(SK, 1000);
            for i in 0..n {
                p.add_to_new(vec![addr_of(i)], None).unwrap();
            }
            for i in 0..t {
                p.add_to_tried(addr_of(most + i)).unwrap();
            }
            assert_eq!((p.new_bucket.len(), p.tried_bucket.len()), (n, t));
            books.push((n, t, p));
        }
    }
    let books = &books;
    explore(run, "draws", |c: &mut Ch| {
        let (n, t, p) = &books[c.pick(books.len())];
        let k = c.pick(n + t + 3);
        if k == n + t + 2 {
            match crate::drawn(c, || p.get_new_random_peer()) {
                None => ensure!(*n == 0, "no new peer is found"),
                Some((slot, a)) => {
                    same!(p.new_bucket_get_address(slot), Some(a), "the address in the slot that was drawn");
                    let i = (0..*n).find(|i| addr_of(*i) == a);
                    ensure!(i.is_some(), "{a} is not a new address");
                    seen.lock().unwrap().insert((*n, *t, usize::MAX, vec![i.unwrap()]));
                }
            }
            return Ok(());
        }
        let got = crate::drawn(c, || p.get_random_peers(k)).map_err(|e| e.to_string())?;
        c.op(|| format!("{k} of {n} new and {t} tried: {got:?}"));
        same!(got.len(), k.min(n + t), "how many are drawn");
        let mut which: Vec<usize> = vec![];
        for a in &got {
            let Some(i) = (0..*n).chain(most..most + t).find(|i| addr_of(*i) == *a) else { return Err(format!("{a} is not in the book")) };
            ensure!(!which.contains(&i), "{a} is drawn twice");
            which.push(i);
        }
        which.sort();
        c.outcome(&format!("{} drawn", got.len()));
        seen.lock().unwrap().insert((*n, *t, k.min(n + t), which));
        Ok(())
    });
    if run.failed() || !run.enumerated() {
        return;
    }
    // every address is drawn for some outcome of the dice
    let seen = seen.into_inner().unwrap();
    for (n, t, _) in books {
        for i in (0..*n).chain(most..most + t) {
            for k in 1..=n + t {
                if !seen.iter().any(|(a, b, c, which)| (*a, *b, *c) == (*n, *t, k) && which.contains(&i)) {
                    run.fail("draws", vec![format!("{n} new, {t} tried, {k} asked for")], format!("entry {i} can never be drawn"));
                    return;
                }
            }
        }
        for i in 0..*n {
            if !seen.contains(&(*n, *t, usize::MAX, vec![i])) {
                run.fail("draws", vec![format!("{n} new")], format!("entry {i} can never be drawn alone"));
                return;
            }
        }
    }
}

fn melting(run: &mut Run) {
    explore(run, "melting", |c: &mut Ch| {
        let ice = c.of(&[1u64, 60, 1_209_600]);
        let boot = c.flag();
        let since = c.of(&[0i64, 1, 1_700_000_000]);
        let mut p = fresh(SK, ice);
        p.bootstrapped = boot;
        let period = if boot { ice as i64 } else { 1800 };
        let (a, b) = (addr("30.0.0.1:1"), addr("30.0.0.1:2"));
        p.ice_peer_address_pure(&a, since);
        let d = c.of(&[0, 1, period - 1, period, period + 1, period + 2, 2 * period]);
        c.op(|| format!("iced for {d} s of {period}"));
        let on = d <= period;
        ensure!(!p.ice_bucket_contains_pure(&b, since + d), "another port of the address is on ice");
        same!(p.ice_bucket_contains_pure(&a, since + d), on, "on ice after {d} s of {period}");
        same!(p.ice_bucket.contains_key(&a), on, "kept on ice after {d} s of {period}");
        // icing again starts over
        if c.flag() {
            p.ice_peer_address_pure(&a, since + d);
            ensure!(p.ice_bucket_contains_pure(&a, since + d + period), "not on ice until the period passes again");
            ensure!(!p.ice_bucket_contains_pure(&a, since + d + period + 1), "on ice after the period");
        }
        c.outcome(if on { "iced" } else { "melted" });
        Ok(())
    });
}

pub fn book(run: &mut Run) {
    draws(run);
    slots(run);
    melting(run);
    let a = addresses();
    let mut ops = vec![];
    for i in 0..7 {
        ops.push(Op::AddNew(vec![i], Some(4)));
        if i != 5 {
            ops.push(Op::AddTried(i));
        }
    }
    ops.extend([
        Op::AddNew(vec![2], None),
        Op::AddNew(vec![0], Some(2)),
        Op::AddNew(vec![2, 3], Some(4)),
        Op::AddNew(vec![5, 0, 6, 1], Some(4)),
        Op::RemoveTried(vec![0], false),
        Op::RemoveTried(vec![1], true),
        Op::RemoveTried(vec![2, 0], true),
        Op::RemoveNew(vec![2]),
        Op::RemoveNew(vec![0, 3]),
        Op::Ice(0),
        Op::Ice(2),
        Op::RemoveIce(vec![0]),
        Op::RemoveIce(vec![1, 2]),
        Op::Iced(0),
        Op::Iced(2),
        Op::Melt,
        Op::Wait,
        Op::Bootstrapped,
        Op::Clear(0),
        Op::Clear(1),
        Op::Clear(2),
        Op::Restart,
    ]);
    let (d, m) = run.pick((5, 400_000), (7, 4_000_000));
    // one wait is less than a period, two are more; while bootstrapping every wait is more
    bfs(run, "histories", &Histories { addrs: a.clone(), ops: ops.clone(), ice: 10_000, wait: 6_000 }, d, m);
    bfs(run, "short waits", &Histories { addrs: a, ops: ops.into_iter().filter(|o| !matches!(o, Op::AddNew(_, None) | Op::Clear(_) | Op::RemoveNew(_))).collect(), ice: 600, wait: 1_000 }, d, m);
    run.assume("the clock is not set back while a check runs");
}
