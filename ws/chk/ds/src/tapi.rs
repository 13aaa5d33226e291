//! Signalled upgrades, their activation, and emergency committees.
use mc::{Run, ensure, explore, same};
use std::collections::{HashMap, HashSet};
use witnet_data_structures::chain::tapi::*;
use witnet_data_structures::chain::*;

#[derive(Clone, Debug)]
struct Vote {
    bit: usize,
    init: u32,
    period: u32,
    end: u32,
}
impl Vote {
    fn name(&self) -> String {
        format!("bit {}", self.bit)
    }
    fn counter(&self) -> BitVotesCounter {
        BitVotesCounter { votes: 0, period: self.period, wip: self.name(), init: self.init, end: self.end, bit: self.bit }
    }
    /// The window an epoch belongs to ends at this epoch.
    fn window(&self, e: u32) -> u32 {
        self.init + (e - self.init).div_ceil(self.period) * self.period
    }
    /// When it becomes active, given the blocks so far.
    fn active(&self, blocks: &[(u32, u32)]) -> Option<u32> {
        let counts = |e: u32| e >= self.init && e < self.end;
        for (n, (at, _)) in blocks.iter().enumerate() {
            // windows which end between the block before this one and this one
            let from = if n == 0 { *at } else { blocks[n - 1].0 + 1 };
            for e in from..=*at {
                if counts(e) && (e - self.init).is_multiple_of(self.period) {
                    let yes = blocks.iter().filter(|(b, v)| *b <= e && counts(*b) && self.window(*b) == e && v >> self.bit & 1 == 1).count() as u32;
                    if yes * 100 / self.period >= 80 {
                        return Some(at + 21);
                    }
                }
            }
        }
        None
    }
    /// Votes in the window under way.
    fn votes(&self, blocks: &[(u32, u32)]) -> u32 {
        let Some(last) = blocks.last().map(|b| b.0.min(self.end - 1)) else { return 0 };
        if last < self.init || (last - self.init).is_multiple_of(self.period) {
            return 0;
        }
        blocks.iter().filter(|(b, v)| *b >= self.init && *b <= last && self.window(*b) == self.window(last) && v >> self.bit & 1 == 1).count() as u32
    }
}

fn voting(run: &mut Run) {
    let len = run.pick(8, 10);
    explore(run, "upgrades are activated by votes", move |c| {
        let votes = [
            vec![Vote { bit: 0, init: 1, period: 5, end: 1000 }],
            vec![Vote { bit: 0, init: 2, period: 2, end: 7 }, Vote { bit: 2, init: 4, period: 4, end: 13 }],
            vec![Vote { bit: 1, init: 0, period: 3, end: 7 }, Vote { bit: 31, init: 3, period: 1, end: 6 }],
        ][c.pick(3)]
        .clone();
        let mut t = TapiEngine::default();
        for v in &votes {
            t.bit_tapi_counter.insert(v.counter());
        }
        // the last of them: 1 active already, 2 opposed
        let special = c.pick(3);
        let avoid: HashSet<String> = votes.iter().rev().take(if special == 2 { 1 } else { 0 }).map(|v| v.name()).collect();
        if special == 1 {
            t.wip_activation.insert(votes.last().unwrap().name(), 3);
        }
        let first = c.of(&[1u32, 3]);
        let mut blocks = vec![];
        let mut e = first;
        let both = votes.iter().fold(0u32, |a, v| a | 1 << v.bit);
        while e < first + len {
            let signal = match c.pick(4) {
                0 => None,
                1 => Some(0),
                2 => Some(both | 1 << 7),
                _ => Some(1 << votes[0].bit),
            };
            if let Some(s) = signal {
                c.op(|| format!("block of epoch {e} with signals {s:#b}"));
                t.update_bit_counter(s, e, e, &avoid);
                blocks.push((e, s));
                if e == first + 2 {
                    t = bincode::deserialize(&bincode::serialize(&t).unwrap()).map_err(|e| e.to_string())?;
                }
            }
            e += 1;
        }
        let mut want = HashMap::new();
        for v in &votes {
            if v.bit == votes.last().unwrap().bit && special > 0 {
                if special == 1 {
                    want.insert(v.name(), 3);
                }
            } else if let Some(at) = v.active(&blocks) {
                want.insert(v.name(), at);
            }
        }
        same!(t.wip_activation.clone(), want, "activations by {votes:?} after {blocks:?}, special {special}");
        c.outcome(["nothing activated", "one activated", "two activated"][want.len()]);
        let shown = t.bit_tapi_counter.info(&t.wip_activation);
        same!(shown.iter().map(|v| v.wip.clone()).collect::<Vec<_>>(), votes.iter().map(|v| v.name()).filter(|v| !want.contains_key(v)).collect::<Vec<_>>(), "open votes");
        for v in &votes {
            if !want.contains_key(&v.name()) && !avoid.contains(&v.name()) {
                let got = shown.iter().find(|x| x.wip == v.name()).unwrap();
                same!(got.votes, v.votes(&blocks), "votes for {v:?} after {blocks:?}");
            }
            for e in 0..20 {
                same!(t.in_voting_range(e, &v.name()), e >= v.init && e < v.end, "epoch {e} within {v:?}");
            }
        }
        ensure!(!t.in_voting_range(5, "another"), "unknown upgrade");
        same!(t.bit_tapi_counter.last_epoch(), blocks.last().map_or(0, |b| b.0), "last epoch");
        Ok(())
    });
}

/// Upgrades and the epochs from which they are in force on the main network.
const MAINNET: [(&str, u32); 13] = [
    ("WIP0008", 192_000),
    ("WIP0009-0011-0012", 376_320),
    ("THIRD_HARD_FORK", 445_440),
    ("WIP0014-0016", 549_141),
    ("WIP0017-0018-0019", 683_541),
    ("WIP0020-0021", 1_059_861),
    ("WIP0022", 1_708_901),
    ("WIP0023", 1_708_901),
    ("WIP0024", 1_708_901),
    ("WIP0025", 1_708_901),
    ("WIP0026", 1_708_901),
    ("WIP0027", 1_708_901),
    ("WIP0028", 3_048_960),
];
const ENVIRONMENTS: [Environment; 3] = [Environment::Mainnet, Environment::Testnet, Environment::Development];

fn flags(w: &ActiveWips) -> Vec<(&'static str, bool)> {
    vec![
        ("WIP0008", w.wip_0008()),
        ("WIP0009-0011-0012", w.wips_0009_0011_0012()),
        ("THIRD_HARD_FORK", w.third_hard_fork()),
        ("WIP0014-0016", w.wip0014()),
        ("WIP0014-0016", w.wip0016()),
        ("WIP0017-0018-0019", w.wip0017()),
        ("WIP0017-0018-0019", w.wip0018()),
        ("WIP0017-0018-0019", w.wip0019()),
        ("WIP0020-0021", w.wip0020()),
        ("WIP0020-0021", w.wip0021()),
        ("WIP0022", w.wip0022()),
        ("WIP0023", w.wip0023()),
        ("WIP0024", w.wip0024()),
        ("WIP0025", w.wip0025()),
        ("WIP0026", w.wip0026()),
        ("WIP0027", w.wip0027()),
        ("WIP0028", w.wip0028()),
    ]
}
fn gates(run: &mut Run) {
    explore(run, "which upgrades are in force", |c| {
        let env = c.of(&ENVIRONMENTS);
        let mut t = TapiEngine::default();
        // what an earlier version of the node left behind
        let old = c.pick(3);
        if old > 0 {
            t.bit_tapi_counter.insert(Vote { bit: 4, init: 5, period: 5, end: 50 }.counter());
            t.wip_activation.insert("bit 3".into(), 77);
        }
        if old > 1 {
            t.wip_activation.insert("WIP0008".into(), 5);
            t.bit_tapi_counter.insert(Vote { bit: 2, init: 5, period: 5, end: 50 }.counter());
        }
        let (min, avoid) = t.initialize_wip_information(env);
        ensure!(min == u32::MAX && avoid.is_empty() && t.bit_tapi_counter.is_empty(), "nothing is being voted on: {min} {avoid:?} {:?}", t.bit_tapi_counter);
        let mut want: HashMap<String, u32> = MAINNET.iter().map(|(n, e)| (n.to_string(), if env == Environment::Mainnet { *e } else { 0 })).collect();
        if old > 0 {
            want.insert("bit 3".into(), 77);
        }
        same!(t.wip_activation.clone(), want, "upgrades in {env:?}");
        for (_, e) in MAINNET {
            for epoch in [0, e - 1, e, e + 1, u32::MAX] {
                c.ops(1);
                let w = ActiveWips { active_wips: t.wip_activation.clone(), block_epoch: epoch };
                for (n, on) in flags(&w) {
                    same!(on, epoch >= want[n], "{n} at {epoch} in {env:?}");
                }
                let hard = |f: u32| env != Environment::Mainnet || epoch >= f;
                same!(after_first_hard_fork(epoch, env), hard(192_000), "first hard fork at {epoch} in {env:?}");
                same!(after_second_hard_fork(epoch, env), hard(376_320), "second hard fork at {epoch} in {env:?}");
            }
        }
        c.outcome("environment");
        Ok(())
    });
    // one at a time
    explore(run, "an upgrade is in force from its epoch on", |c| {
        let n = MAINNET[c.pick(MAINNET.len())].0;
        let at = c.pick(4) as u32;
        for epoch in 0..5u32 {
            c.ops(1);
            let mut w = ActiveWips::default();
            w.insert_wip(n, at);
            w.set_epoch(epoch);
            for (m, on) in flags(&w) {
                same!(on, m == n && epoch >= at, "{m} at {epoch}, with {n} from {at} on");
            }
        }
        c.outcome("upgrade");
        Ok(())
    });
}

fn emergencies(run: &mut Run) {
    let top = run.pick(310_000u32, 2_000_000);
    explore(run, "emergency committees", move |c| {
        let env = c.of(&ENVIRONMENTS);
        let mut last: Option<Vec<PublicKeyHash>> = None;
        let mut spans = vec![];
        for i in 0..top {
            let now = in_emergency_period(i, env);
            if now != last {
                spans.push((i, now.as_ref().map_or(0, |v| v.len())));
                if let Some(v) = &now {
                    ensure!(v.iter().collect::<HashSet<_>>().len() == v.len(), "twice in a committee");
                }
                last = now;
            }
        }
        c.ops(top as u64);
        let want = if env == Environment::Mainnet { vec![(751, 7), (1344, 0), (44_166, 6), (45_509, 0), (144_201, 7), (145_500, 0), (224_301, 6), (304_896, 0)] } else { vec![] };
        same!(spans, want, "emergency committees in {env:?}");
        same!(in_emergency_period(u32::MAX, env), None, "in the end");
        c.outcome("environment");
        Ok(())
    });
}

pub fn tapi(run: &mut Run) {
    voting(run);
    gates(run);
    emergencies(run);
}
