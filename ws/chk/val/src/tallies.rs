//! Tallies: every tally but the right one is refused.
use crate::blocks::mint;
use crate::blocks::*;
use crate::txs::*;
use crate::world::*;
use mc::{Ch, Run, ensure, explore, same};
use std::collections::BTreeMap;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::*;
use witnet_data_structures::proto::versioning::VersionedHashable;
use witnet_data_structures::radon_report::{RadonReport, ReportContext};
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_rad::error::RadError;
use witnet_rad::types::RadonTypes;

/// What a witness did.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
enum Did {
    /// committed, and no more
    Hid,
    One,
    Two,
    /// could not reach the source
    Timeout,
    /// revealed something that is no value
    Garbage,
}
const DEEDS: [Did; 5] = [Did::Hid, Did::One, Did::Two, Did::Timeout, Did::Garbage];
impl Did {
    fn bytes(self) -> Vec<u8> {
        match self {
            Did::Hid => vec![],
            Did::One => vec![1],
            Did::Two => vec![2],
            Did::Timeout => error(0x31),
            Did::Garbage => vec![0xff],
        }
    }
}
/// An error without arguments as a result.
fn error(code: u8) -> Vec<u8> {
    if code < 24 { vec![0xd8, 0x27, 0x81, code] } else { vec![0xd8, 0x27, 0x81, 0x18, code] }
}
fn encoded(e: RadError) -> Vec<u8> {
    Vec::try_from(&RadonReport::<RadonTypes>::from_result(Err(e), &ReportContext::default())).unwrap()
}

/// One request, ready for its tally.
#[derive(Clone)]
struct Case {
    born: u32,
    witnesses: u16,
    reward: u64,
    fee: u64,
    min: u32,
    collateral: u64,
    /// key of who asked
    creator: u8,
    /// what witnesses 21, 22, ... did
    did: Vec<Did>,
}
/// The witnesses in consensus, those who report errors, and the result.
struct Verdict {
    result: Vec<u8>,
    good: Vec<u8>,
    errors: Vec<u8>,
}
impl Case {
    fn col(&self) -> u64 {
        if self.collateral == 0 { COLLATERAL } else { self.collateral }
    }
    fn who(&self, f: impl Fn(Did) -> bool) -> Vec<u8> {
        (0..self.did.len()).filter(|i| f(self.did[*i])).map(|i| 21 + i as u8).collect()
    }
    fn verdict(&self) -> Verdict {
        let revealers = self.who(|d| d != Did::Hid);
        // with nobody in consensus, every reveal counts as an error
        let none = |result| Verdict { result, good: vec![], errors: revealers.clone() };
        let c = self.did.len();
        let min = self.min as f64 / 100.0;
        let short = |n: usize| none(encoded(RadError::InsufficientConsensus { achieved: n as f64 / c as f64, required: min }));
        if c == 0 {
            return none(error(0x52));
        }
        if revealers.is_empty() {
            return none(error(0x50));
        }
        let n = |d: Did| self.did.iter().filter(|x| **x == d).count();
        let (v, e) = (n(Did::One) + n(Did::Two), n(Did::Timeout) + n(Did::Garbage));
        if (v.max(e) as f64 / c as f64) < min {
            return short(v.max(e));
        }
        if e > v {
            let k = n(Did::Timeout).max(n(Did::Garbage));
            if (k as f64 / c as f64) < min {
                return short(k);
            }
            // nobody is blamed
            return Verdict { result: error(if n(Did::Timeout) == k { 0x31 } else { 0x60 }), good: revealers.clone(), errors: revealers };
        }
        let errors = self.who(|d| [Did::Timeout, Did::Garbage].contains(&d));
        if n(Did::One) == n(Did::Two) {
            // the script fails, which is no fault of those who revealed values
            return Verdict { result: error(0xff), good: self.who(|d| [Did::One, Did::Two].contains(&d)), errors };
        }
        let most = if n(Did::One) > n(Did::Two) { Did::One } else { Did::Two };
        if n(most) as f64 / c as f64 <= min {
            return short(n(most));
        }
        Verdict { result: most.bytes(), good: self.who(|d| d == most), errors }
    }
    /// The right tally and the miner's fee.
    fn tally(&self, shared: bool) -> (TallyTransaction, u64) {
        let v = self.verdict();
        let (w, c, r, g) = (self.witnesses as u64, self.did.len() as u64, self.who(|d| d != Did::Hid).len() as u64, v.good.len() as u64);
        let committers = self.who(|_| true);
        let out: Vec<u8> = committers.iter().copied().filter(|k| !v.good.contains(k)).collect();
        let liars = out.iter().filter(|k| !v.errors.contains(k)).count() as u64;
        let mut outputs = vec![];
        let mut rest = 0;
        if version(self.born) < 2 {
            if g == 0 {
                outputs.extend(committers.iter().map(|k| vto(*k, self.col(), 0)));
            } else {
                let lost = liars * self.col();
                let share = if shared { lost / g } else { 0 };
                rest = if shared { lost % g } else { 0 };
                outputs.extend(v.good.iter().map(|k| vto(*k, self.reward + self.col() + share, 0)));
                outputs.extend(out.iter().filter(|k| v.errors.contains(k)).map(|k| vto(*k, self.col(), 0)));
            }
        }
        let change = (w - g) * self.reward + (w - c + w - r) * self.fee;
        if change > 0 {
            outputs.push(vto(self.creator, change, 0));
        }
        let keys = |k: &[u8]| k.iter().map(|k| pkh(*k)).collect::<Vec<_>>();
        (TallyTransaction::new(self.tx().versioned_hash(protocol(self.born)), v.result, outputs, keys(&out), keys(&v.errors)), rest)
    }
    fn tx(&self) -> DRTransaction {
        let mut dr = request(self.witnesses, self.reward, self.fee, self.min, self.collateral);
        dr.data_request.tally = RADTally { filters: vec![RADFilter { op: 8, args: vec![] }], reducer: 2 };
        let mut t = DRTransaction::new(DRTransactionBody::new(inputs(&[ptr(100, self.did.iter().fold(1, |a, d| a * 6 + *d as u32))]), dr, vec![]), vec![]);
        let h = t.versioned_hash(protocol(self.born));
        t.signatures = vec![signed(self.creator, h)];
        t
    }
    /// Leads the request to its tally, or `short` steps before.
    fn enter(&self, p: &mut DataRequestPool, epoch: u32, short: usize) -> Result<(), String> {
        let t = self.tx();
        let id = t.versioned_hash(protocol(self.born));
        let b = hash(0xbb, 2);
        let bad = |e: anyhow::Error| e.to_string();
        let mut alone = DataRequestPool::new(EXTRA);
        alone.process_data_request(&t, self.born, Some(hash(0xbb, 1))).map_err(bad)?;
        let mut past = vec![alone.clone()];
        for step in 0..2 * EXTRA as usize + 4 {
            for (i, d) in self.did.iter().enumerate() {
                let k = 21 + i as u8;
                if step == 1 {
                    let body = CommitTransactionBody::new(id, hash(1, k), DataRequestEligibilityClaim::default(), vec![], vec![], None);
                    alone.process_commit(&CommitTransaction::new(body, vec![signed(k, hash(1, k))]), epoch, &b).map_err(bad)?;
                }
                if step == 2 && *d != Did::Hid {
                    alone.process_reveal(&RevealTransaction::new(RevealTransactionBody::new(id, d.bytes(), pkh(k)), vec![signed(k, hash(1, k))]), epoch, &b).map_err(bad)?;
                }
            }
            alone.update_data_request_stages(Some(10_000), Some(epoch));
            past.push(alone.clone());
            if alone.data_request_state(&id).unwrap().stage == DataRequestStage::TALLY {
                break;
            }
        }
        let end = &past[past.len() - 1 - short];
        p.process_data_request(&t, self.born, Some(hash(0xbb, 1))).map_err(bad)?;
        *p.data_request_state_mutable(&id).unwrap() = end.data_request_state(&id).unwrap().clone();
        Ok(())
    }
}
/// All the histories of a request with up to `max` witnesses.
fn cases(c: &mut Ch, max: usize) -> Case {
    let born = c.of(&[500, 1500, V20 + 300]);
    let witnesses = 1 + c.pick(max);
    let mut did = vec![];
    let mut lo = 0;
    // all of the witnesses commit in one block, or none
    for _ in 0..c.of(&[witnesses, 0]) {
        lo += c.pick(5 - lo);
        did.push(DEEDS[lo]);
    }
    Case { born, witnesses: witnesses as u16, reward: 7_000, fee: 0, min: 51, collateral: 0, creator: 1, did }
}
fn show(k: &Case, epoch: u32) -> String {
    format!("request of epoch {} at epoch {epoch}, of key {}, {} witnesses, reward {}, fee {}, collateral {}, {}% consensus, witnesses {:?}", k.born, k.creator, k.witnesses, k.reward, k.fee, k.collateral, k.min, k.did)
}
fn chain(k: &Case, epoch: u32, names: &[&str]) -> Result<Chain, String> {
    let mut chain = Chain::new(&Ledger::new(), epoch);
    chain.wips = wips(epoch, names);
    for v in 14..40 {
        chain.stakes.add_stake(stake_key(v, v), witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE), 7, true, witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE)).unwrap();
    }
    k.enter(&mut chain.drs, epoch, 0)?;
    Ok(chain)
}
/// The same tally, whatever the order of its lists.
fn shape(t: &TallyTransaction, creator: u8, change: bool) -> (Hash, Vec<u8>, Vec<(PublicKeyHash, u64, u64)>, Option<(u64, u64)>, Vec<PublicKeyHash>, Vec<PublicKeyHash>) {
    let mut o: Vec<_> = t.outputs.iter().map(|o| (o.pkh, o.value, o.time_lock)).collect();
    let last = if change && o.last().is_some_and(|o| o.0 == pkh(creator)) { o.pop() } else { None };
    o.sort();
    let (mut a, mut b) = (t.out_of_consensus.clone(), t.error_committers.clone());
    a.sort();
    b.sort();
    (t.dr_pointer, t.tally.clone(), o, last.map(|l| (l.1, l.2)), a, b)
}
/// Every tally near the right one.
fn neighbours(k: &Case, t: &TallyTransaction) -> Vec<(String, TallyTransaction)> {
    let mut v: Vec<(String, TallyTransaction)> = vec![];
    let mut add = |n: String, f: &dyn Fn(&mut TallyTransaction)| {
        let mut x = t.clone();
        f(&mut x);
        v.push((n, TallyTransaction::new(x.dr_pointer, x.tally, x.outputs, x.out_of_consensus, x.error_committers)));
    };
    add("the right one".into(), &|_| {});
    add("of another request".into(), &|t| t.dr_pointer = hash(0xd0, 0));
    for r in [vec![], vec![1], vec![2], vec![3], error(0x31), error(0x50), error(0x52), error(0x54), error(0x60), error(0)] {
        add(format!("with result {r:?}"), &|t| t.tally = r.clone());
    }
    add("with a longer result".into(), &|t| t.tally.push(0));
    let people: Vec<u8> = [1, 2].into_iter().chain((0..=k.did.len() as u8).map(|i| 21 + i)).collect();
    for i in 0..t.outputs.len() {
        for d in [-1i64, 1, -(k.col() as i64), k.col() as i64, k.reward as i64, -(k.reward as i64)] {
            if let Some(x) = t.outputs[i].value.checked_add_signed(d) {
                add(format!("with {d:+} in output {i}"), &|t| t.outputs[i].value = x);
                if i + 1 < t.outputs.len()
                    && let Some(y) = t.outputs[i + 1].value.checked_add_signed(-d)
                {
                    add(format!("with {d:+} in output {i} and the opposite in the next"), &|t| {
                        t.outputs[i].value = x;
                        t.outputs[i + 1].value = y;
                    });
                }
            }
        }
        add(format!("with output {i} empty"), &|t| t.outputs[i].value = 0);
        for p in &people {
            add(format!("with output {i} to key {p}"), &|t| t.outputs[i].pkh = pkh(*p));
        }
        add(format!("with output {i} locked"), &|t| t.outputs[i].time_lock = 1);
        add(format!("without output {i}"), &|t| drop(t.outputs.remove(i)));
        add(format!("with output {i} twice"), &|t| t.outputs.insert(i, t.outputs[i].clone()));
        add(format!("with output {i} split"), &|t| {
            let mut o = t.outputs[i].clone();
            o.value -= 1;
            t.outputs[i].value = 1;
            t.outputs.insert(i, o);
        });
    }
    for p in &people {
        add(format!("with one more for key {p}"), &|t| t.outputs.insert(0, vto(*p, 1, 0)));
        add(format!("with the collateral for key {p}"), &|t| t.outputs.insert(0, vto(*p, k.col(), 0)));
    }
    add("with its payments in another order".into(), &|t| {
        let n = t.outputs.len() - t.outputs.last().is_some_and(|o| o.pkh == pkh(k.creator)) as usize;
        t.outputs[..n].reverse();
    });
    for list in 0..2 {
        fn at(t: &mut TallyTransaction, list: usize) -> &mut Vec<PublicKeyHash> {
            if list == 0 { &mut t.out_of_consensus } else { &mut t.error_committers }
        }
        let name = ["out of consensus", "with errors"][list];
        for p in &people {
            add(format!("with key {p} added to those {name}"), &|t| at(t, list).push(pkh(*p)));
        }
        for i in 0..[t.out_of_consensus.len(), t.error_committers.len()][list] {
            add(format!("without number {i} of those {name}"), &|t| drop(at(t, list).remove(i)));
        }
        add(format!("with those {name} in another order"), &|t| at(t, list).reverse());
    }
    add("with both lists exchanged".into(), &|t| std::mem::swap(&mut t.out_of_consensus, &mut t.error_committers));
    v
}
fn same_tally(k: &Case, x: &TallyTransaction, t: &TallyTransaction, change: bool) -> bool {
    shape(x, k.creator, change) == shape(t, k.creator, change)
}

/// The transactions a node would use, and every neighbour of the right tally.
fn verdicts(run: &mut Run) {
    let deep = run.thorough();
    let max = run.pick(3, 4);
    explore(run, "tallies near the right one", move |c| {
        let mut k = cases(c, max);
        k.min = c.of(&[51, 75, 99]);
        k.fee = c.of(&[0, 10]);
        k.collateral = c.of(if deep { &[0, 2_001][..] } else { &[2_001][..] });
        k.creator = c.of(&[1, 21]);
        let shared = version(k.born) < 2 && c.flag();
        let epoch = c.of(if k.born < V20 { &[501, 1501, 2501][..] } else { &[2501, 3501][..] });
        if epoch <= k.born {
            return Ok(());
        }
        let names: Vec<&str> = WIPS.into_iter().filter(|w| !shared || *w != "WIP0023").collect();
        let mut chain = chain(&k, epoch, &names)?;
        let (right, rest) = k.tally(shared);
        let v = k.verdict();
        let change = (k.witnesses as u64 - v.good.len() as u64) * k.reward + (2 * k.witnesses as u64 - k.did.len() as u64 - k.who(|d| d != Did::Hid).len() as u64) * k.fee > 0;
        let what = show(&k, epoch);
        c.op(|| what.clone());
        c.state(&what);
        c.outcome(match right.tally[..] {
            [_] => "a value",
            [.., 0x52] => "no commitments",
            [.., 0x50] => "no reveals",
            [.., 0x31 | 0x60] => "an error",
            _ => "no consensus",
        });
        // the tally a miner makes
        let reveals = chain.drs.get_all_reveals(&chain.wips, Some(30), Some(epoch));
        let id = right.dr_pointer;
        let of = reveals.get(&id).ok_or_else(|| format!("no tally will be made: {what}"))?;
        let list: Vec<&RevealTransaction> = of.iter().collect();
        let dr = k.tx().body.dr_output;
        let report = witnet_validations::validations::run_tally_panic_safe(&list, &dr.data_request.tally, k.min as f64 / 100.0, k.did.len(), &chain.wips, false);
        let made = create_tally(
            id,
            &dr,
            pkh(k.creator),
            &report,
            of.iter().map(|r| r.body.pkh).collect(),
            k.who(|_| true).into_iter().map(pkh).collect::<std::collections::HashSet<_>>(),
            COLLATERAL,
            witnet_validations::validations::tally_bytes_on_encode_error(),
            &chain.wips,
            protocol(k.born),
        );
        same!(shape(&made, k.creator, change), shape(&right, k.creator, change), "tally made for {what}");
        for (name, t) in neighbours(&k, &right) {
            let want = same_tally(&k, &t, &right, change);
            c.ops(1);
            let m = mint(epoch, rest);
            let b = chain.block(BlockTransactions { mint: m.clone(), tally_txns: vec![t.clone()], ..Default::default() });
            let before = chain.drs.clone();
            let got = chain.validate(&b);
            ensure!(before == chain.drs, "validation changed the requests");
            match got {
                Err(e) if want => return Err(format!("tally {name} refused ({e}): {what}, with {:?}", right.outputs)),
                Ok(_) if !want => return Err(format!("tally {name} accepted: {what}, with {:?}", right.outputs)),
                Ok(d) => {
                    let mut u = chain.utxo.clone();
                    d.apply(&mut u);
                    let mut l = Ledger::new();
                    create(&mut l, t.versioned_hash(protocol(epoch)), &[], &t.outputs, epoch);
                    create(&mut l, m.versioned_hash(protocol(epoch)), &[], &m.outputs, epoch);
                    same!(contents(&u), l, "outputs after the tally of {what}");
                }
                Err(_) => {}
            }
        }
        Ok(())
    });
}

/// Which tallies a block must have.
fn due(run: &mut Run) {
    let n = run.pick(3, 4);
    explore(run, "the tallies of a block", move |c| {
        let (born, epoch) = c.of(&[(V20 + 300, V20 + 400), (1500, V20 + 400), (500, 600)]);
        let mut chain = Chain::new(&Ledger::new(), epoch);
        for v in 14..40 {
            chain.stakes.add_stake(stake_key(v, v), witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE), 7, true, witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE)).unwrap();
        }
        // three requests, told apart by what their witnesses did, some not ready
        let all: Vec<Case> = [vec![], vec![Did::One, Did::One], vec![Did::One, Did::Timeout]].into_iter().map(|did| Case { born, witnesses: 2, reward: 7_000, fee: 10, min: 51, collateral: 0, creator: 1, did }).collect();
        let mut ready = vec![];
        for k in &all {
            let short = c.pick(3);
            if short < 2 {
                k.enter(&mut chain.drs, epoch, short)?;
            }
            ready.push(short == 0);
        }
        let mut list = vec![];
        for _ in 0..c.pick(n + 1) {
            list.push(c.pick(3));
        }
        let mut sorted = list.clone();
        sorted.sort();
        let want = sorted == (0..3).filter(|i| ready[*i]).collect::<Vec<_>>();
        let what = format!("block at epoch {epoch} with tallies {list:?} of requests of epoch {born}, those ready: {ready:?}");
        c.op(|| what.clone());
        c.state(&what);
        c.outcome(if want { "accepted" } else { "refused" });
        let b = chain.block(BlockTransactions { mint: mint(epoch, 0), tally_txns: list.iter().map(|i| all[*i].tally(false).0).collect(), ..Default::default() });
        let before = chain.drs.clone();
        let got = chain.validate(&b);
        ensure!(before == chain.drs, "validation changed the requests: {what}");
        match got {
            Ok(_) if !want => Err(format!("accepted: {what}")),
            Err(e) if want => Err(format!("refused ({e}): {what}")),
            _ => Ok(()),
        }
    });
}

/// Validators leave while requests are open.
fn leavers(run: &mut Run) {
    explore(run, "requests settle when validators leave", |c| {
        let epoch = V20 + 400;
        let k = Case { born: V20 + 300, witnesses: 2, reward: 7_000, fee: 10, min: 51, collateral: 0, creator: 1, did: c.of(&[vec![], vec![Did::One, Did::Hid], vec![Did::One, Did::One]]) };
        // as many validators as now, at the start there were enough
        let n = c.of(&[4, 7, 8, 20]);
        let mut chain = Chain::new(&Ledger::new(), epoch);
        for v in 14..10 + n as u8 {
            chain.stakes.add_stake(stake_key(v, v), witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE), 7, true, witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE)).unwrap();
        }
        same!(chain.stakes.validator_count(), n.max(4), "validators");
        k.enter(&mut chain.drs, epoch, 0)?;
        let what = format!("{} when {n} validators are left", show(&k, epoch));
        c.op(|| what.clone());
        c.state(&what);
        c.outcome(&format!("{n} validators"));
        let ids: BTreeMap<Hash, usize> = chain.drs.get_all_reveals(&chain.wips, Some(n), Some(epoch)).into_iter().map(|(k, v)| (k, v.len())).collect();
        let b = chain.block(BlockTransactions { mint: mint(epoch, 0), tally_txns: vec![k.tally(false).0], ..Default::default() });
        let e = chain.validate(&b).err();
        if let Some(e) = e {
            return Err(if n < 8 && e.starts_with("Too many witnesses data request not found in the same block") {
                format!("a request is never settled once there are fewer than four validators per witness ({e}): {what}")
            } else {
                format!("tally refused ({e}): {what}")
            });
        }
        same!(ids.len(), 1, "tallies to make for {what}");
        Ok(())
    });
}

pub fn tallies(run: &mut Run) {
    setup();
    run.assume("requests ask for the mode of the values; other scripts are decided by the checks of rad");
    verdicts(run);
    due(run);
    leavers(run);
}
