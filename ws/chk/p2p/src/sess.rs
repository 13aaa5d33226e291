//! C45: sessions with peers.
use mc::{Ch, Run, System, bfs, ensure, explore, fp, same};
use std::collections::BTreeMap;
use std::net::{IpAddr, SocketAddr};
use std::sync::Mutex;
use witnet_p2p::error::SessionsError;
use witnet_p2p::sessions::{bounded_sessions::BoundedSessions, *};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Register(SessionType, usize),
    Unregister(SessionType, SessionStatus, usize),
    Consolidate(SessionType, usize),
    Consensus(usize),
    Unconsensus(usize),
    Limits(u16, u16),
}

type Map = BTreeMap<SocketAddr, u32>;

#[derive(Clone, Hash, PartialEq, Debug, Default)]
struct Spec {
    /// unconsolidated and consolidated, in and out
    maps: [[Map; 2]; 2],
    consensus: Map,
    limits: Option<(u16, u16)>,
}

struct State {
    sessions: Sessions<u32>,
    spec: Spec,
    /// what led here: the code's state cannot be copied
    past: Vec<Op>,
    menu: &'static Menu,
}

struct Menu {
    addrs: Vec<SocketAddr>,
    range: u8,
    public: SocketAddr,
    ops: Vec<Op>,
}

fn start(menu: &'static Menu) -> State {
    let mut sessions = Sessions::default();
    sessions.set_public_address(Some(menu.public));
    sessions.inbound_network_ranges.set_range_limit(menu.range);
    State { sessions, spec: Spec::default(), past: vec![], menu }
}

impl Clone for State {
    fn clone(&self) -> Self {
        let mut s = start(self.menu);
        for op in &self.past {
            let _ = code(&mut s, op);
        }
        State { sessions: s.sessions, spec: self.spec.clone(), past: self.past.clone(), menu: self.menu }
    }
}

/// What identifies the session opened by the `n`th operation.
fn reference(n: usize) -> u32 {
    1000 + n as u32
}

fn code(s: &mut State, op: &Op) -> Result<(), SessionsError> {
    let a = |i: usize| s.menu.addrs[i];
    let n = s.past.len();
    let r = match *op {
        Op::Register(t, i) => s.sessions.register_session(t, a(i), reference(n)),
        Op::Unregister(t, st, i) => s.sessions.unregister_session(t, st, a(i)),
        Op::Consolidate(t, i) => s.sessions.consolidate_session(t, a(i)),
        Op::Consensus(i) => s.sessions.consensus_session(a(i)),
        Op::Unconsensus(i) => s.sessions.unconsensus_session(a(i)),
        Op::Limits(i, o) => {
            s.sessions.set_limits(i, o);
            Ok(())
        }
    };
    s.past.push(*op);
    r
}

impl Spec {
    fn limit(&self, way: usize) -> usize {
        self.limits.map_or(usize::MAX, |l| usize::from(if way == 0 { l.0 } else { l.1 }))
    }
    /// Whether the operation is carried out; one that is not changes nothing.
    fn step(&mut self, menu: &Menu, op: &Op, n: usize) -> Result<(), SessionsError> {
        let way = |t| match t {
            SessionType::Inbound => Ok(0),
            SessionType::Outbound => Ok(1),
            SessionType::Feeler => Err(SessionsError::NotExpectedFeelerPeer),
        };
        match *op {
            Op::Register(t, i) => {
                let m = &mut self.maps[way(t)?][0];
                if m.contains_key(&menu.addrs[i]) {
                    return Err(SessionsError::AddressAlreadyRegistered);
                }
                m.insert(menu.addrs[i], reference(n));
            }
            Op::Unregister(t, st, i) => {
                let w = way(t)?;
                let st = usize::from(st == SessionStatus::Consolidated);
                self.maps[w][st].remove(&menu.addrs[i]).ok_or(SessionsError::AddressNotFound)?;
                if (w, st) == (1, 1) {
                    self.consensus.remove(&menu.addrs[i]);
                }
            }
            Op::Consolidate(t, i) => {
                let w = way(t)?;
                let a = menu.addrs[i];
                let r = *self.maps[w][0].get(&a).ok_or(SessionsError::AddressNotFound)?;
                if self.maps[w][1].len() >= self.limit(w) {
                    return Err(SessionsError::MaxPeersReached);
                }
                if self.maps[w][1].contains_key(&a) {
                    return Err(SessionsError::AddressAlreadyRegistered);
                }
                self.maps[w][0].remove(&a);
                self.maps[w][1].insert(a, r);
            }
            Op::Consensus(i) => {
                let a = menu.addrs[i];
                let r = *self.maps[1][1].get(&a).ok_or(SessionsError::NotOutboundConsolidatedPeer)?;
                if self.consensus.len() >= self.limit(1) {
                    return Err(SessionsError::MaxPeersReached);
                }
                if self.consensus.contains_key(&a) {
                    return Err(SessionsError::AddressAlreadyRegistered);
                }
                self.consensus.insert(a, r);
            }
            Op::Unconsensus(i) => {
                self.consensus.remove(&menu.addrs[i]).ok_or(SessionsError::AddressNotFound)?;
            }
            Op::Limits(i, o) => self.limits = Some((i, o)),
        }
        Ok(())
    }
}

fn read(b: &BoundedSessions<u32>) -> Map {
    b.collection.iter().map(|(a, i)| (*a, i.reference)).collect()
}

/// The first `bits` of an IPv4 address.
fn prefix(a: &SocketAddr, bits: u8) -> u32 {
    let IpAddr::V4(ip) = a.ip() else { unreachable!() };
    if bits == 0 { 0 } else { u32::from(ip) & (u32::MAX << (32 - u32::from(bits))) }
}

struct Histories(&'static Menu);

impl System for Histories {
    type S = State;
    type A = Op;
    fn init(&self) -> Vec<State> {
        vec![start(self.0)]
    }
    fn actions(&self, _: &State) -> Vec<Op> {
        self.0.ops.clone()
    }
    fn step(&self, s: &mut State, op: &Op) -> Result<(), String> {
        let want = s.spec.step(self.0, op, s.past.len());
        let got = code(s, op);
        match (&got, &want) {
            (Ok(()), Ok(())) => {}
            // which of two reasons to refuse is named is not said
            (Err(SessionsError::MaxPeersReached | SessionsError::AddressAlreadyRegistered), Err(SessionsError::MaxPeersReached | SessionsError::AddressAlreadyRegistered)) => {}
            _ => same!(got, want, "the result of {op:?}"),
        }
        Ok(())
    }
    fn key(&self, s: &State) -> u128 {
        // references only matter by which is which: the order they were opened in
        let mut refs: Vec<u32> = s.spec.maps.iter().flatten().chain([&s.spec.consensus]).flat_map(|m| m.values().copied()).collect();
        refs.sort();
        refs.dedup();
        let short = |m: &Map| m.iter().map(|(a, r)| (*a, refs.binary_search(r).unwrap())).collect::<Vec<_>>();
        fp(&(s.spec.maps.iter().flatten().map(short).collect::<Vec<_>>(), short(&s.spec.consensus), s.spec.limits))
    }
    fn check(&self, s: &State) -> Result<(), String> {
        let (c, p) = (&s.sessions, &s.spec);
        same!(read(&c.inbound_unconsolidated), p.maps[0][0], "inbound sessions in their handshake");
        same!(read(&c.inbound_consolidated), p.maps[0][1], "inbound sessions");
        same!(read(&c.outbound_unconsolidated), p.maps[1][0], "outbound sessions in their handshake");
        same!(read(&c.outbound_consolidated), p.maps[1][1], "outbound sessions");
        same!(read(&c.outbound_consolidated_consensus), p.consensus, "outbound sessions in consensus");
        ensure!(p.consensus.iter().all(|(a, r)| p.maps[1][1].get(a) == Some(r)), "a session in consensus that is not there");
        let out = p.maps[1][0].len() + p.maps[1][1].len();
        same!(c.get_num_outbound_sessions(), out, "the number of outbound sessions");
        same!(c.get_num_inbound_sessions(), p.maps[0][1].len(), "the number of inbound sessions");
        same!(c.is_outbound_bootstrap_needed(), p.limits.is_none_or(|l| out < usize::from(l.1)), "whether peers are missing");
        same!(c.num_missing_outbound(), p.limits.map_or(1, |l| usize::from(l.1).saturating_sub(out)), "how many peers are missing");
        for a in self.0.addrs.iter().chain([&self.0.public]) {
            let used = p.maps[1].iter().any(|m| m.contains_key(a)) || *a == self.0.public;
            same!(c.is_outbound_address_eligible(*a), !used, "whether {a} may be connected to");
            let mut near = p.maps[0].iter().flat_map(|m| m.keys()).filter(|b| prefix(b, self.0.range) == prefix(a, self.0.range));
            let near = near.next().map(|b| prefix(b, self.0.range).to_be_bytes());
            same!(c.is_similar_to_inbound_session(a).copied(), near, "the range of an inbound session that {a} is in");
        }
        let sorted = |mut v: Vec<u32>| {
            v.sort();
            v
        };
        same!(sorted(c.get_all_consolidated_sessions().copied().collect()), sorted(p.maps[0][1].values().chain(p.maps[1][1].values()).copied().collect()), "all sessions");
        same!(sorted(c.get_consolidated_inbound_sessions().copied().collect()), sorted(p.maps[0][1].values().copied().collect()), "all inbound sessions");
        let g = c.get_consolidated_sessions_addr();
        let addrs = |mut v: Vec<SocketAddr>| {
            v.sort();
            v
        };
        same!(addrs(g.inbound), p.maps[0][1].keys().copied().collect::<Vec<_>>(), "the addresses of inbound sessions");
        same!(addrs(g.outbound), p.maps[1][1].keys().copied().collect::<Vec<_>>(), "the addresses of outbound sessions");
        let shown = c.show_ips();
        for a in &self.0.addrs {
            let times = p.maps.iter().flatten().chain([&p.consensus]).filter(|m| m.contains_key(a)).count();
            same!(shown.iter().filter(|x| **x == a.to_string()).count(), times, "how often {a} is shown");
        }
        // whatever is drawn (see `anycast`)
        rand::drive(Some(Box::new(|| 0)));
        for (safu, m) in [(false, &p.maps[1][1]), (true, &p.consensus)] {
            match c.get_random_anycast_session(safu) {
                None => ensure!(m.is_empty(), "no session is found"),
                Some(r) => ensure!(m.values().any(|x| *x == r), "session {r} is drawn"),
            }
        }
        rand::drive(None);
        Ok(())
    }
}

fn anycast(run: &mut Run) {
    let seen: Mutex<std::collections::BTreeSet<(usize, usize, bool, u32)>> = Mutex::default();
    let addr = |i: usize| -> SocketAddr { format!("20.0.0.{i}:21337").parse().unwrap() };
    let mut all = vec![];
    for n in 0..=4usize {
        for m in 0..=n {
            let mut s = Sessions::default();
            for i in 0..n {
                s.register_session(SessionType::Outbound, addr(i), i as u32).unwrap();
                s.consolidate_session(SessionType::Outbound, addr(i)).unwrap();
            }
            for i in 0..m {
                s.consensus_session(addr(i)).unwrap();
            }
            s.register_session(SessionType::Outbound, addr(7), 7).unwrap();
            s.register_session(SessionType::Inbound, addr(8), 8).unwrap();
            s.register_session(SessionType::Inbound, addr(9), 9).unwrap();
            s.consolidate_session(SessionType::Inbound, addr(9)).unwrap();
            all.push((n, m, s));
        }
    }
    let all = &all;
    explore(run, "anycast", |c: &mut Ch| {
        let (n, m, s) = &all[c.pick(all.len())];
        let safu = c.flag();
        let got = crate::drawn(c, || s.get_random_anycast_session(safu));
        let from = if safu { *m } else { *n };
        c.op(|| format!("out of {from}: {got:?}"));
        match got {
            None => ensure!(from == 0, "no session is found"),
            Some(r) => {
                ensure!((r as usize) < from, "session {r} is drawn");
                seen.lock().unwrap().insert((*n, *m, safu, r));
            }
        }
        c.outcome(if got.is_some() { "a session" } else { "none" });
        Ok(())
    });
    if run.failed() || !run.enumerated() {
        return;
    }
    let seen = seen.into_inner().unwrap();
    for (n, m, _) in all {
        for safu in [false, true] {
            for i in 0..if safu { *m } else { *n } {
                if !seen.contains(&(*n, *m, safu, i as u32)) {
                    run.fail("anycast", vec![format!("{n} sessions, {m} in consensus, safu {safu}")], format!("session {i} can never be drawn"));
                    return;
                }
            }
        }
    }
}

pub fn sessions(run: &mut Run) {
    use SessionStatus::*;
    use SessionType::*;
    anycast(run);
    let both = [Unconsolidated, Consolidated];
    let menu = |addrs: &[&str], range: u8, ops: Vec<Op>| -> &'static Menu {
        Box::leak(Box::new(Menu { addrs: addrs.iter().map(|a| a.parse().unwrap()).collect(), range, public: "52.1.2.3:21337".parse().unwrap(), ops }))
    };
    let on = |t: SessionType, n: usize| -> Vec<Op> {
        (0..n).flat_map(|i| [Op::Register(t, i), Op::Consolidate(t, i), Op::Unregister(t, both[0], i), Op::Unregister(t, both[1], i)]).collect()
    };
    let d = 40;
    let m = run.pick(300_000, 2_000_000);
    // two inbound addresses of one range and one of another
    let mut ops = on(Inbound, 3);
    ops.extend([Op::Limits(1, 1), Op::Limits(2, 1), Op::Limits(0, 0)]);
    bfs(run, "inbound", &Histories(menu(&["10.1.0.1:5", "10.1.63.2:6", "10.1.64.1:5"], 18, ops)), d, m);
    let mut ops = on(Outbound, 3);
    ops.extend((0..3).flat_map(|i| [Op::Consensus(i), Op::Unconsensus(i)]));
    ops.extend([Op::Limits(1, 1), Op::Limits(1, 2)]);
    bfs(run, "outbound", &Histories(menu(&["10.1.0.1:5", "10.1.0.1:6", "52.1.2.3:21338"], 18, ops)), d, m);
    // a peer in both directions, and the kinds that are not kept
    let mut ops = on(Inbound, 2);
    ops.extend(on(Outbound, 2));
    ops.extend(on(Feeler, 1));
    ops.extend([Op::Consensus(0), Op::Unconsensus(0), Op::Limits(1, 2)]);
    bfs(run, "both ways", &Histories(menu(&["10.1.0.1:5", "10.1.0.1:6"], 32, ops)), d - 1, m);
}
