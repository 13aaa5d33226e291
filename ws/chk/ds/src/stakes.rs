//! The stakes tracker against a plain table.
use crate::utxo::{pkh, vto};
use mc::{Run, System, bfs, ensure, fp, same};
use std::collections::{BTreeMap, BTreeSet};
use witnet_data_structures::capabilities::Capability;
use witnet_data_structures::chain::{KeyedSignature, PublicKeyHash, StakeOutput};
use witnet_data_structures::staking::errors::StakesError;
use witnet_data_structures::staking::helpers::*;
use witnet_data_structures::staking::stakes::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::wit::Wit;

const WIT: u64 = 1_000_000_000;
const CAPS: [Capability; 2] = [Capability::Mining, Capability::Witnessing];

#[derive(Clone, Debug, Hash)]
enum Op {
    /// by transaction, or by the call which keeps the nonce
    Stake(u8, u8, u64, bool),
    Unstake(u8, u8, u64, bool),
    Reward(u8, u64),
    Collateral(u8, u64),
    Age(u8, u8, u32, u32),
    Mined(u8),
    Time(u32),
    Reload,
    Clone,
}
#[derive(Clone, Debug, Hash, PartialEq)]
struct Row {
    coins: u64,
    /// mining, witnessing
    epochs: [u32; 2],
    nonce: u64,
}
type Key = (u8, u8);
#[derive(Clone, Hash)]
struct Model {
    rows: BTreeMap<Key, Row>,
    now: u32,
}
#[derive(Clone)]
struct S {
    hist: Vec<Op>,
    m: Model,
}
struct Tracker {
    menu: Vec<Op>,
    min: u64,
    start: u32,
    latest: u32,
    addresses: u8,
    /// a validator keeps the first withdrawer it was given
    single: bool,
}

fn key(v: u8, w: u8) -> StakeKey<PublicKeyHash> {
    StakeKey { validator: pkh(v), withdrawer: pkh(w) }
}
fn unkey(k: &StakeKey<PublicKeyHash>) -> Key {
    let n = |p: &PublicKeyHash| p.as_ref()[0];
    (n(&k.validator), n(&k.withdrawer))
}
impl Row {
    fn power(&self, cap: usize, at: u32) -> u64 {
        self.coins / WIT * at.saturating_sub(self.epochs[cap]) as u64
    }
    fn add(&mut self, coins: u64, epoch: u32) {
        let all = self.coins + coins;
        for e in &mut self.epochs {
            *e = ((self.coins / WIT * *e as u64 + coins / WIT * epoch as u64) / (all / WIT)) as u32;
        }
        self.coins = all;
    }
}
impl Model {
    fn rank(&self, cap: usize, at: u32) -> Vec<(Key, u64)> {
        let mut v: Vec<_> = self.rows.iter().map(|(k, r)| (*k, r.power(cap, at))).collect();
        v.sort_by_key(|(k, p)| std::cmp::Reverse((*p, *k)));
        v
    }
}

fn apply(t: &mut StakesTracker, o: &Op, now: u32, min: u64) -> Result<Option<StakesError<PublicKeyHash, Wit, u32>>, String> {
    let min_w = Wit::from_nanowits(min);
    let r = match *o {
        Op::Stake(v, w, coins, true) => {
            let out = StakeOutput { value: coins, key: key(v, w), authorization: KeyedSignature::default() };
            let tx = StakeTransaction::new(StakeTransactionBody::new(vec![], out, None), vec![]);
            process_stake_transactions(t, [&tx].into_iter(), now, min)
        }
        Op::Stake(v, w, coins, false) => t.add_stake(key(v, w), Wit::from_nanowits(coins), now, false, min_w).map(|_| ()),
        Op::Unstake(v, w, coins, true) => {
            // part of it is the fee
            let tx = UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(v), vto(w, coins - 1, 0), 1, 0), KeyedSignature::default());
            process_unstake_transactions(t, [&tx].into_iter(), now, min)
        }
        Op::Unstake(v, w, coins, false) => t.remove_stake(key(v, w), Wit::from_nanowits(coins), now, false, min_w).map(|_| ()),
        Op::Reward(v, coins) => t.add_reward(pkh(v), Wit::from_nanowits(coins), now),
        Op::Collateral(v, coins) => t.reserve_collateral(pkh(v), Wit::from_nanowits(coins), min_w),
        Op::Age(v, cap, ahead, factor) => t.reset_age(pkh(v), CAPS[cap as usize], now + ahead, factor),
        Op::Mined(v) => t.reset_mining_age(pkh(v), now),
        Op::Time(_) => Ok(()),
        Op::Reload => {
            let bytes = bincode::serialize(t).map_err(|e| e.to_string())?;
            *t = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
            Ok(())
        }
        Op::Clone => {
            *t = t.clone();
            Ok(())
        }
    };
    Ok(r.err())
}

impl Tracker {
    /// None: refused (or no effect, for those calls which do not tell).
    fn model(&self, m: &mut Model, o: &Op) -> bool {
        let now = m.now;
        match *o {
            Op::Stake(v, w, coins, tx) => {
                if coins < self.min {
                    return false;
                }
                let r = m.rows.entry((v, w)).or_insert(Row { coins: 0, epochs: [0; 2], nonce: now as u64 });
                r.add(coins, now);
                if tx {
                    r.nonce = now as u64;
                }
            }
            Op::Unstake(v, w, coins, tx) => {
                let Some(r) = m.rows.get_mut(&(v, w)) else { return false };
                if coins > r.coins || (r.coins - coins > 0 && r.coins - coins < self.min) {
                    return false;
                }
                r.coins -= coins;
                if tx {
                    r.nonce = now as u64;
                }
                if r.coins == 0 {
                    m.rows.remove(&(v, w));
                }
            }
            Op::Reward(v, coins) => {
                let Some((_, r)) = m.rows.iter_mut().find(|(k, _)| k.0 == v) else { return false };
                r.add(coins, now);
            }
            Op::Collateral(v, coins) => {
                let Some((_, r)) = m.rows.iter_mut().find(|(k, _)| k.0 == v) else { return false };
                if coins <= r.coins && (r.coins == coins || r.coins - coins >= self.min) {
                    r.coins -= coins;
                }
            }
            Op::Age(v, cap, ahead, factor) => {
                if !m.rows.keys().any(|k| k.0 == v) {
                    return false;
                }
                for (k, r) in m.rows.iter_mut() {
                    if k.0 == v {
                        let e = &mut r.epochs[cap as usize];
                        *e += (now + ahead - *e) / factor;
                    }
                }
            }
            Op::Mined(v) => {
                let rank = m.rank(0, now);
                if let Some(win) = rank.iter().position(|(k, _)| k.0 == v) {
                    for (i, (k, _)) in rank.iter().enumerate().take(win + 1) {
                        m.rows.get_mut(k).unwrap().epochs[0] = now + 1 + (win - i) as u32;
                    }
                }
            }
            Op::Time(d) => m.now += d,
            Op::Reload | Op::Clone => {}
        }
        true
    }
    fn see(&self, t: &StakesTracker, m: &Model) -> Result<(), String> {
        let row = |e: &StakeEntry<9, PublicKeyHash, Wit, u32, u64, u64>| (unkey(&e.key), Row { coins: e.value.coins.nanowits(), epochs: [e.value.epochs.mining, e.value.epochs.witnessing], nonce: e.value.nonce });
        let sorted = |r: Result<Vec<StakeEntry<_, _, _, _, _, _>>, StakesError<PublicKeyHash, Wit, u32>>| {
            r.map(|v| {
                let mut v: Vec<_> = v.iter().map(row).collect();
                v.sort_by_key(|x| x.0);
                v
            })
        };
        let of = |f: &dyn Fn(&Key) -> bool| m.rows.iter().filter(|(k, _)| f(k)).map(|(k, r)| (*k, r.clone())).collect::<Vec<_>>();
        let or = |v: Vec<(Key, Row)>, e| if v.is_empty() { Err(e) } else { Ok(v) };
        let all = of(&|_| true);
        same!(sorted(t.query_stakes(QueryStakesKey::All)), Ok(all.clone()), "all entries");
        same!(t.stakes_count(), all.len(), "number of entries");
        let sum = |v: &[(Key, Row)]| Wit::from_nanowits(v.iter().map(|x| x.1.coins).sum());
        same!(t.total_staked(), sum(&all), "total staked");
        let validators: BTreeSet<u8> = all.iter().map(|x| x.0.0).collect();
        same!(t.validator_count(), validators.len(), "number of validators");
        let mut c = t.clone();
        for x in 1..=self.addresses {
            let v = or(of(&|k| k.0 == x), StakesError::ValidatorNotFound { validator: pkh(x) });
            same!(sorted(t.query_stakes(QueryStakesKey::Validator(pkh(x)))), v, "entries of validator {x}");
            same!(c.query_total_stake(QueryStakesKey::Validator(pkh(x))), v.as_ref().map(|l| sum(l)).map_err(|_| StakesError::ValidatorNotFound { validator: pkh(x) }), "stake of validator {x}");
            let v = or(of(&|k| k.1 == x), StakesError::WithdrawerNotFound { withdrawer: pkh(x) });
            same!(sorted(t.query_stakes((None::<PublicKeyHash>, Some(pkh(x))))), v, "entries of withdrawer {x}");
            for w in 1..=self.addresses {
                let e = || StakesError::EntryNotFound { key: key(x, w) };
                same!(sorted(t.query_stakes((Some(pkh(x)), Some(pkh(w))))), or(of(&|k| *k == (x, w)), e()), "entry {x} {w}");
                same!(t.query_nonce(key(x, w)), m.rows.get(&(x, w)).map(|r| r.nonce).ok_or(e()), "nonce of {x} {w}");
                let fine = !validators.contains(&x) || m.rows.contains_key(&(x, w));
                same!(t.check_validator_withdrawer(pkh(x), pkh(w)), if fine { Ok(()) } else { Err(StakesError::DifferentWithdrawer { validator: pkh(x) }) }, "may {w} stake on {x}");
            }
        }
        ensure!(t.query_stakes((None::<PublicKeyHash>, None)) == Err(StakesError::EmptyQuery), "an empty query is answered");
        for at in [m.now, m.now.saturating_sub(9), m.now + 13] {
            for (i, cap) in CAPS.into_iter().enumerate() {
                let rank = m.rank(i, at);
                same!(t.by_rank(cap, at).map(|(k, p)| (unkey(&k), p)).collect::<Vec<_>>(), rank, "rank at {at}");
                for x in 1..=self.addresses {
                    let best = rank.iter().filter(|(k, _)| k.0 == x).map(|y| y.1).max();
                    same!(t.query_power(pkh(x), cap, at), best.ok_or(StakesError::ValidatorNotFound { validator: pkh(x) }), "power of {x} at {at}");
                }
                let n = rank.len();
                let mut ways = vec![(CensusStrategy::All, 0..n, 1), (CensusStrategy::StepBy(1), 0..n, 1), (CensusStrategy::StepBy(2), 0..n, 2), (CensusStrategy::Take(0), 0..0, 1), (CensusStrategy::Take(2), 0..n.min(2), 1)];
                for k in 1..=n {
                    ways.push((CensusStrategy::Evenly(k), 0..k * (n / k), n / k));
                }
                for (s, range, step) in ways {
                    let exp: Vec<Key> = range.step_by(step).map(|j| rank[j].0).collect();
                    same!(t.census(cap, at, s).map(|k| unkey(&k)).collect::<Vec<_>>(), exp, "census {s:?} at {at}");
                }
            }
        }
        Ok(())
    }
}

impl System for Tracker {
    type S = S;
    type A = Op;
    fn init(&self) -> Vec<S> {
        vec![S { hist: vec![], m: Model { rows: BTreeMap::new(), now: self.start } }]
    }
    fn actions(&self, s: &S) -> Vec<Op> {
        let ok = |o: &Op| match *o {
            Op::Time(d) => s.m.now + d <= self.latest,
            Op::Stake(v, w, _, _) => !self.single || s.m.rows.keys().all(|k| k.0 != v || k.1 == w),
            // an age is never reset to the past
            Op::Age(v, cap, ahead, _) => s.m.rows.iter().all(|(k, r)| k.0 != v || r.epochs[cap as usize] <= s.m.now + ahead),
            // shares of less than one coin have no age
            Op::Reward(v, c) => s.m.rows.iter().all(|(k, r)| k.0 != v || r.coins + c >= WIT),
            _ => true,
        };
        self.menu.iter().filter(|o| ok(o)).cloned().collect()
    }
    fn step(&self, s: &mut S, a: &Op) -> Result<(), String> {
        // The tracker is rebuilt by its history: states share nothing.
        let mut t = StakesTracker::default();
        let mut m = self.init()[0].m.clone();
        for o in &s.hist {
            apply(&mut t, o, m.now, self.min)?;
            self.model(&mut m, o);
        }
        let before = t.clone();
        let was = s.m.rows.clone();
        let got = apply(&mut t, a, s.m.now, self.min)?;
        let fine = self.model(&mut s.m, a);
        same!(got.is_none(), fine, "accepted (error {got:?})");
        s.hist.push(a.clone());
        self.see(&t, &s.m)?;
        // Equality also sees the order in which entries came, which clones forget.
        let (b, c) = (before.clone(), t.clone());
        ensure!((b == c) == (s.m.rows == was) && (c == b) == (s.m.rows == was), "equality with the tracker before");
        self.see(&c, &s.m)?;
        Ok(())
    }
    fn key(&self, s: &S) -> u128 {
        fp(&s.m)
    }
}

pub fn stakes(run: &mut Run) {
    run.assume("A validator's rewards and collateral go to its only withdrawer (validation refuses a second one); ages are not reset to the past; stakes are at least one coin.");
    let t = run.thorough();
    let h = WIT / 2;
    use Op::*;
    let menu = vec![
        Stake(1, 2, 2 * WIT, true),
        Stake(1, 2, 5 * WIT + h, false),
        Stake(2, 2, 3 * WIT, true),
        Stake(2, 2, 2 * WIT - 1, true),
        Stake(3, 1, 4 * WIT, true),
        Unstake(1, 2, 2 * WIT, true),
        Unstake(1, 2, WIT, false),
        Unstake(1, 2, 7 * WIT + h, true),
        Unstake(2, 2, 3 * WIT, true),
        Unstake(2, 2, 3 * WIT + 1, false),
        Unstake(3, 1, 4 * WIT, false),
        Unstake(1, 3, 2 * WIT, true),
        Reward(1, WIT + h),
        Reward(2, 1),
        Reward(2, 50 * WIT),
        Collateral(1, WIT),
        Collateral(2, 3 * WIT),
        Collateral(2, WIT + 1),
        Age(1, 0, 0, 1),
        Age(1, 1, 10, 1),
        Age(2, 1, 1, 2),
        Age(3, 0, 1, 3),
        Mined(1),
        Mined(2),
        Mined(3),
        Time(1),
        Time(7),
        Reload,
        Clone,
    ];
    let cap = if t { 3_000_000 } else { 400_000 };
    bfs(run, "one withdrawer per validator", &Tracker { menu: menu.clone(), min: 2 * WIT, start: 11, latest: 60, addresses: 3, single: true }, if t { 7 } else { 5 }, cap);
    let menu = vec![
        Stake(1, 1, 2 * WIT, true),
        Stake(1, 2, 2 * WIT, true),
        Stake(2, 1, 2 * WIT, true),
        Stake(2, 2, 3 * WIT, false),
        Stake(1, 1, WIT, true),
        Unstake(1, 1, 2 * WIT, true),
        Unstake(1, 2, 2 * WIT, true),
        Unstake(2, 1, 2 * WIT, false),
        Unstake(2, 2, 3 * WIT, true),
        Unstake(2, 2, WIT, true),
        Age(1, 0, 0, 1),
        Age(2, 1, 1, 2),
        Mined(1),
        Mined(2),
        Time(3),
        Reload,
    ];
    bfs(run, "several withdrawers per validator", &Tracker { menu, min: 2 * WIT, start: 0, latest: 9, addresses: 3, single: false }, if t { 9 } else { 6 }, cap);
    // A history of the same pair, deeper.
    let menu = vec![Stake(1, 2, 2 * WIT, true), Stake(1, 2, 7 * WIT + h, true), Unstake(1, 2, 2 * WIT, true), Unstake(1, 2, 3 * WIT + 1, true), Reward(1, h), Reward(1, 9 * WIT), Collateral(1, 2 * WIT), Collateral(1, WIT), Age(1, 1, 0, 1), Mined(1), Time(5), Stake(2, 2, 4 * WIT, true), Collateral(2, 4 * WIT), Unstake(2, 2, 4 * WIT, true)];
    bfs(run, "one validator in depth", &Tracker { menu, min: 2 * WIT, start: 3, latest: 40, addresses: 2, single: true }, if t { 12 } else { 7 }, cap);
    // Very large amounts: the whole supply, late epochs.
    let big = 2_400_000_000 * WIT;
    let menu = vec![Stake(1, 1, big, true), Stake(2, 1, 20 * WIT, true), Unstake(1, 1, big - 2 * WIT, true), Reward(1, WIT), Reward(2, big), Collateral(2, 18 * WIT), Mined(1), Mined(2), Age(1, 1, 10, 1), Age(2, 0, 0, 1), Time(1_000_000)];
    bfs(run, "the whole supply", &Tracker { menu, min: 2 * WIT, start: 900_000_000, latest: 903_000_000, addresses: 2, single: true }, if t { 8 } else { 6 }, cap);
}
