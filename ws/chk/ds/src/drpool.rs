//! The life of data requests, and what their tallies pay.
use crate::pool::{key, ksig};
use crate::utxo::{pkh, ptr};
use mc::{Ch, Run, System, bfs, ensure, explore, fp, same};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::*;
use witnet_data_structures::error::DataRequestError;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::radon_error::{ErrorLike, RadonError};
use witnet_data_structures::radon_report::{RadonReport, ReportContext, Stage, TallyMetaData, TypeLike};
use witnet_data_structures::register_protocol_version;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::DataRequestEligibilityClaim;

const COLLATERAL: u64 = 1000;
/// The epoch at which version 2 of the protocol is in force.
const V2: u32 = 1000;

#[derive(Clone, Debug, Hash)]
enum Op {
    Request(u8),
    Commit(u8, u8),
    Reveal(u8, u8),
    Tally(u8),
    /// This node takes part: its reveal (of the witness) waits.
    Mine(u8, u8),
    Block,
    Restart,
    Drain,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum St {
    Commit,
    Reveal,
    Tally,
}
#[derive(Clone, Debug, Hash)]
struct Req {
    epoch: u32,
    stage: St,
    /// blocks seen in the commit and in the reveal stage
    cage: u16,
    rage: u16,
    commits: BTreeSet<u8>,
    reveals: BTreeSet<u8>,
}
#[derive(Clone)]
struct S {
    p: DataRequestPool,
    reqs: BTreeMap<u8, Req>,
    done: BTreeSet<u8>,
    mine: BTreeMap<u8, u8>,
    finished: Vec<(u8, Req)>,
    epoch: u32,
}
struct Life {
    extra: u16,
    base: u32,
    validators: usize,
    witnesses: u16,
    n: u8,
}

fn block(e: u32) -> Hash {
    Hash::SHA256([e as u8 + 1; 32])
}

impl Life {
    fn tx(&self, i: u8) -> DRTransaction {
        let dr = DataRequestOutput { witnesses: self.witnesses + i as u16, witness_reward: 50 + i as u64, commit_and_reveal_fee: 3, collateral: if i == 0 { 0 } else { 500 }, ..Default::default() };
        DRTransaction::new(DRTransactionBody::new(vec![Input::new(ptr(i, 0))], dr, vec![]), vec![ksig(100 + i)])
    }
    fn id(&self, i: u8) -> Hash {
        self.tx(i).versioned_hash(ProtocolVersion::from_epoch(self.base))
    }
    fn commit(&self, i: u8, w: u8) -> CommitTransaction {
        CommitTransaction::new(CommitTransactionBody::new(self.id(i), Hash::SHA256([w; 32]), DataRequestEligibilityClaim::default(), vec![], vec![], None), vec![ksig(w)])
    }
    fn reveal(&self, i: u8, w: u8) -> RevealTransaction {
        RevealTransaction::new(RevealTransactionBody::new(self.id(i), vec![w], key(w).pkh()), vec![ksig(w)])
    }
    fn tally(&self, i: u8) -> TallyTransaction {
        TallyTransaction::new(self.id(i), vec![i], vec![], vec![], vec![])
    }
    fn crowded(&self, i: u8, epoch: u32) -> bool {
        epoch >= V2 && (self.witnesses + i as u16) as usize > self.validators / 4
    }
    fn info(&self, i: u8, r: &Req, tally: Option<u32>) -> DataRequestInfo {
        DataRequestInfo {
            commits: r.commits.iter().map(|w| (key(*w).pkh(), self.commit(i, *w))).collect(),
            reveals: r.reveals.iter().map(|w| (key(*w).pkh(), self.reveal(i, *w))).collect(),
            tally: tally.map(|_| self.tally(i)),
            block_hash_dr_tx: Some(block(r.epoch)),
            block_hash_tally_tx: tally.map(block),
            current_commit_round: r.cage.min(self.extra + 1),
            current_reveal_round: r.rage,
            current_stage: match (tally, r.stage) {
                (Some(_), _) => None,
                (_, St::Commit) => Some(DataRequestStage::COMMIT),
                (_, St::Reveal) => Some(DataRequestStage::REVEAL),
                (_, St::Tally) => Some(DataRequestStage::TALLY),
            },
        }
    }
}

fn kind<T>(r: Result<T, anyhow::Error>) -> Result<(), DataRequestError> {
    r.map(|_| ()).map_err(|e| e.downcast().expect("a data request error"))
}

impl System for Life {
    type S = S;
    type A = Op;
    fn init(&self) -> Vec<S> {
        vec![S { p: DataRequestPool::new(self.extra), reqs: BTreeMap::new(), done: BTreeSet::new(), mine: BTreeMap::new(), finished: vec![], epoch: self.base }]
    }
    fn actions(&self, s: &S) -> Vec<Op> {
        let mut v = vec![Op::Block];
        for i in 0..self.n {
            if !s.reqs.contains_key(&i) && !s.done.contains(&i) {
                v.push(Op::Request(i));
            }
            v.push(Op::Tally(i));
            if !s.mine.contains_key(&i) && s.reqs.get(&i).is_some_and(|r| r.stage == St::Commit) {
                v.push(Op::Mine(i, 0));
            }
            for w in 0..2 {
                // A block has one commit and one reveal of a witness at most.
                if s.reqs.get(&i).is_none_or(|r| r.stage != St::Commit || !r.commits.contains(&w)) {
                    v.push(Op::Commit(i, w));
                }
                if s.reqs.get(&i).is_none_or(|r| r.stage != St::Reveal || (r.commits.contains(&w) && !r.reveals.contains(&w))) {
                    v.push(Op::Reveal(i, w));
                }
            }
        }
        if !s.finished.is_empty() {
            v.push(Op::Drain);
        }
        v.push(Op::Restart);
        v
    }
    fn step(&self, s: &mut S, a: &Op) -> Result<(), String> {
        let b = block(s.epoch);
        match a {
            Op::Request(i) => {
                same!(kind(s.p.process_data_request(&self.tx(*i), s.epoch, Some(b))).ok(), Some(()), "new request");
                s.reqs.insert(*i, Req { epoch: s.epoch, stage: St::Commit, cage: 0, rage: 0, commits: BTreeSet::new(), reveals: BTreeSet::new() });
            }
            Op::Commit(i, w) => {
                let got = kind(s.p.process_commit(&self.commit(*i, *w), s.epoch, &b));
                match s.reqs.get_mut(i) {
                    None => ensure!(matches!(&got, Err(DataRequestError::AddCommitFail { dr_pointer, .. }) if *dr_pointer == self.id(*i)), "a commit for an unknown request: {got:?}"),
                    Some(r) if r.stage != St::Commit => ensure!(matches!(got, Err(DataRequestError::NotCommitStage)), "a late commit: {got:?}"),
                    Some(r) => {
                        ensure!(got.is_ok(), "commit refused: {got:?}");
                        r.commits.insert(*w);
                    }
                }
            }
            Op::Reveal(i, w) => {
                let got = kind(s.p.process_reveal(&self.reveal(*i, *w), s.epoch, &b));
                match s.reqs.get_mut(i) {
                    None => ensure!(matches!(&got, Err(DataRequestError::AddRevealFail { dr_pointer, .. }) if *dr_pointer == self.id(*i)), "a reveal for an unknown request: {got:?}"),
                    Some(r) if r.stage != St::Reveal => ensure!(matches!(got, Err(DataRequestError::NotRevealStage)), "a reveal out of its stage: {got:?}"),
                    Some(r) => {
                        ensure!(got.is_ok(), "reveal refused: {got:?}");
                        r.reveals.insert(*w);
                    }
                }
            }
            Op::Tally(i) => {
                let got = kind(s.p.process_tally(&self.tally(*i), &b));
                match s.reqs.get(i) {
                    None => ensure!(matches!(&got, Err(DataRequestError::AddTallyFail { dr_pointer, .. }) if *dr_pointer == self.id(*i)), "a tally for an unknown request: {got:?}"),
                    Some(r) if r.stage != St::Tally => ensure!(matches!(got, Err(DataRequestError::NotTallyStage)), "an early tally: {got:?}"),
                    Some(_) => {
                        ensure!(got.is_ok(), "tally refused: {got:?}");
                        let r = s.reqs.remove(i).unwrap();
                        s.done.insert(*i);
                        s.finished.push((*i, Req { epoch: r.epoch << 16 | s.epoch, ..r }));
                    }
                }
            }
            Op::Mine(i, w) => {
                s.p.insert_reveal(self.id(*i), self.reveal(*i, *w));
                s.mine.insert(*i, *w);
            }
            Op::Block => {
                let mut got = s.p.update_data_request_stages(Some(self.validators), Some(s.epoch));
                got.sort_by_key(|t| t.hash());
                let mut exp = vec![];
                for (i, r) in s.reqs.iter_mut() {
                    match r.stage {
                        St::Commit if !r.commits.is_empty() => {
                            r.stage = St::Reveal;
                            r.rage = 1;
                        }
                        St::Commit => {
                            if self.crowded(*i, s.epoch) || r.cage > self.extra {
                                r.stage = St::Tally;
                            } else {
                                r.cage += 1;
                            }
                        }
                        St::Reveal => {
                            if r.reveals.len() >= (self.witnesses + *i as u16) as usize || r.rage > self.extra {
                                r.stage = St::Tally;
                            } else {
                                r.rage += 1;
                            }
                        }
                        St::Tally => {}
                    }
                    if r.stage == St::Tally {
                        s.mine.remove(i);
                    }
                    if let Some(w) = s.mine.get(i)
                        && r.stage == St::Reveal
                        && r.commits.contains(w)
                        && !r.reveals.contains(w)
                    {
                        exp.push(self.reveal(*i, *w));
                    }
                }
                exp.sort_by_key(|t| t.hash());
                same!(got, exp, "reveals to send");
                s.epoch += 1;
            }
            Op::Restart => {
                let bytes = bincode::serialize(&s.p).map_err(|e| e.to_string())?;
                let back: DataRequestPool = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
                ensure!(back == s.p, "the pool loaded is another");
                s.p = back;
            }
            Op::Drain => {
                let got = s.p.finished_data_requests();
                let exp: Vec<_> = s.finished.drain(..).map(|(i, r)| self.info(i, &Req { epoch: r.epoch >> 16, ..r.clone() }, Some(r.epoch & 0xffff))).collect();
                same!(got, exp, "finished requests");
            }
        }
        Ok(())
    }
    fn check(&self, s: &S) -> Result<(), String> {
        let mut locked = 0;
        let mut tally = BTreeMap::new();
        for i in 0..self.n {
            let got = s.p.data_request_state(&self.id(i));
            let tx = self.tx(i);
            let Some(r) = s.reqs.get(&i) else {
                ensure!(got.is_none(), "request {i} is known");
                same!(s.p.get_dr_output(&self.id(i)), None, "output of request {i}");
                continue;
            };
            let stage = match r.stage {
                St::Commit => DataRequestStage::COMMIT,
                St::Reveal => DataRequestStage::REVEAL,
                St::Tally => DataRequestStage::TALLY,
            };
            let exp = DataRequestState { data_request: tx.body.dr_output.clone(), pkh: key(100 + i).pkh(), info: self.info(i, r, None), stage, epoch: r.epoch };
            same!(got, Some(&exp), "request {i}");
            same!(s.p.get_dr_output(&self.id(i)), Some(tx.body.dr_output.clone()), "output of request {i}");
            let w = (self.witnesses + i as u16) as u64;
            let col = if i == 0 { COLLATERAL } else { 500 };
            let (c, v) = if r.stage == St::Commit { (0, 0) } else { (r.commits.len() as u64, r.reveals.len() as u64) };
            locked += w * (50 + i as u64 + 6) + c * col - 3 * c - 3 * v;
            let sorted = |wip19: bool| {
                let mut l: Vec<_> = r.reveals.iter().map(|w| self.reveal(i, *w)).collect();
                l.sort_by_key(|t| {
                    let mut k = vec![];
                    k.extend(t.body.pkh.as_ref());
                    if wip19 {
                        k.extend(self.id(i).as_ref());
                        witnet_crypto::hash::calculate_sha256(&k).0.to_vec()
                    } else {
                        k
                    }
                });
                l
            };
            for (wip19, w) in [(true, wips(&["WIP0017-0018-0019"])), (false, wips(&[]))] {
                same!(s.p.get_reveals(&self.id(i), &w).map(|v| v.into_iter().cloned().collect::<Vec<_>>()), Some(sorted(wip19)), "reveals of request {i}");
            }
            if r.stage == St::Tally {
                tally.insert(self.id(i), (sorted(true), sorted(false), r.epoch >= V2 && self.crowded(i, s.epoch)));
            }
        }
        same!(s.p.locked_wits_by_requests(COLLATERAL), locked, "locked value");
        same!(s.p.get_tally_ready_drs().into_iter().collect::<BTreeSet<_>>(), tally.keys().copied().collect::<BTreeSet<_>>(), "requests ready for tally");
        for (wip19, w) in [(true, wips(&["WIP0017-0018-0019"])), (false, wips(&[]))] {
            let got: BTreeMap<_, _> = s.p.get_all_reveals(&w, Some(self.validators), Some(s.epoch)).into_iter().collect();
            let exp: BTreeMap<_, _> = tally.iter().filter(|x| !x.1.2).map(|(k, v)| (*k, if wip19 { v.0.clone() } else { v.1.clone() })).collect();
            same!(got, exp, "reveals of the requests ready for tally");
        }
        for e in [0, self.base, s.epoch.saturating_sub(1), s.epoch, u32::MAX] {
            let exp: BTreeSet<_> = s.reqs.iter().filter(|(_, r)| r.stage == St::Commit && r.epoch <= e).map(|(i, _)| self.id(*i)).collect();
            let got = s.p.get_dr_output_pointers_by_epoch(e);
            same!(got.len(), exp.len(), "number of requests to commit to at {e}");
            same!(got.into_iter().collect::<BTreeSet<_>>(), exp, "requests to commit to at {e}");
        }
        Ok(())
    }
    fn key(&self, s: &S) -> u128 {
        // The epoch only matters relatively to the requests'.
        fp(&(&s.reqs, &s.done, &s.mine, &s.finished, s.epoch))
    }
}

fn wips(l: &[&str]) -> ActiveWips {
    ActiveWips { active_wips: l.iter().map(|x| (x.to_string(), 0)).collect::<HashMap<_, _>>(), block_epoch: 1 }
}

pub fn life(run: &mut Run) {
    register_protocol_version(ProtocolVersion::V2_0, V2, 20);
    run.assume("A block has at most one commit of a witness for a request, and reveals only of those who committed (validation refuses the others).");
    let t = run.thorough();
    for (name, extra, base, validators, n) in [("one request, one extra round", 1, 0, 3, 1), ("one request, no extra rounds", 0, 0, 3, 1), ("one request, three extra rounds", 3, 0, 3, 1)] {
        let y = Life { extra, base, validators, witnesses: 1, n };
        bfs(run, name, &y, 14, if t { 1_000_000 } else { 40_000 });
        let y = Life { witnesses: 2, ..y };
        bfs(run, &format!("{name}, two witnesses"), &y, 14, if t { 1_000_000 } else { 40_000 });
    }
    let cap = if t { 1_000_000 } else { 60_000 };
    bfs(run, "two requests", &Life { extra: 1, base: 0, validators: 3, witnesses: 1, n: 2 }, if t { 11 } else { 8 }, cap);
    bfs(run, "too many witnesses for one of two", &Life { extra: 1, base: V2, validators: 7, witnesses: 1, n: 2 }, if t { 11 } else { 8 }, cap);
    bfs(run, "too many witnesses when version 2 starts", &Life { extra: 1, base: V2 - 2, validators: 3, witnesses: 1, n: 1 }, if t { 12 } else { 8 }, cap);
}

// ---------------------------------------------------------------------------------------------
// Tallies

/// A result that can or cannot be encoded.
#[derive(Clone, Debug)]
struct Res(Option<Vec<u8>>);
#[derive(Clone, Debug)]
struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("bad")
    }
}
impl std::error::Error for Bad {}
impl ErrorLike for Bad {
    fn encode_cbor_array(&self) -> Result<Vec<serde_cbor::Value>, anyhow::Error> {
        Ok(vec![])
    }
    fn decode_cbor_array(_: Vec<serde_cbor::Value>) -> Result<RadonError<Self>, anyhow::Error> {
        Err(anyhow::anyhow!("no"))
    }
}
impl TypeLike for Res {
    type Error = Bad;
    fn encode(&self) -> Result<Vec<u8>, Bad> {
        self.0.clone().ok_or(Bad)
    }
    fn intercept(result: Result<Self, Bad>) -> Self {
        result.unwrap_or(Res(None))
    }
}

fn one_tally(c: &mut Ch, max: usize) -> Result<(), String> {
    let witnesses = 1 + c.pick(max);
    let commits = c.pick(witnesses + 1);
    let reveals = c.pick(commits + 1);
    let (reward, fee) = c.of(&[(7u64, 0u64), (1, 5), (1_000_000_007, 1), (0, 0)]);
    let (dr_col, col) = c.of(&[(0u64, 1_000u64), (1, 1), (10_000_000_001, 10_000_000_001)]);
    let forks = c.of(&[&[][..], &["WIP0009-0011-0012"][..], &["WIP0009-0011-0012", "WIP0023"][..]]);
    let version = c.of(&[ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1]);
    // For each revealer: in consensus, in consensus with an error, liar, out of consensus error. Their order matters only for the order of the outputs.
    let mut flags = vec![];
    let mut lo = 0;
    for _ in 0..reveals {
        lo += c.pick(4 - lo);
        flags.push(lo);
    }
    if c.flag() {
        flags.reverse();
    }
    let encodable = reveals > 0 || c.flag();
    let honest = flags.iter().filter(|f| **f < 2).count();
    let fork2 = !forks.is_empty();
    if !fork2 && reveals > 0 && honest == 0 && version < ProtocolVersion::V2_0 {
        // Before the second hard fork the rules did not define this case.
        return Ok(());
    }
    if !fork2 && version >= ProtocolVersion::V2_0 {
        return Ok(());
    }
    c.op(|| format!("{commits} of {witnesses} witnesses committed, revealers {flags:?}, reward {reward}, fee {fee}, collateral {col}, {forks:?}, {version:?}"));
    // The committers who reveal are not the first ones.
    let committers: HashSet<PublicKeyHash> = (0..commits).map(|i| pkh(i as u8)).collect();
    let revealers: Vec<PublicKeyHash> = (0..reveals).map(|i| pkh((commits - 1 - i) as u8)).collect();
    let meta = TallyMetaData::<Res> { liars: flags.iter().map(|f| *f >= 2).collect(), errors: flags.iter().map(|f| f % 2 == 1).collect(), ..Default::default() };
    let report = RadonReport::from_result(Ok(Res(encodable.then(|| vec![9, 9]))), &ReportContext::from_stage(Stage::Tally(meta)));
    let dr = DataRequestOutput { witnesses: witnesses as u16, witness_reward: reward, commit_and_reveal_fee: fee, collateral: dr_col, ..Default::default() };
    let got = create_tally(Hash::SHA256([5; 32]), &dr, pkh(77), &report, revealers.clone(), committers.clone(), 1_000, vec![6], &wips(forks), version);
    same!((got.dr_pointer, &got.tally[..]), (Hash::SHA256([5; 32]), if encodable { &[9, 9][..] } else { &[6][..] }), "request and result");
    // Who is out of consensus, who reported errors.
    let good: BTreeSet<_> = revealers.iter().zip(&flags).filter(|x| *x.1 < 2).map(|x| *x.0).collect();
    let out: BTreeSet<_> = committers.iter().copied().filter(|p| !good.contains(p)).collect();
    same!(got.out_of_consensus.len(), out.len(), "number of witnesses out of consensus");
    same!(got.out_of_consensus.iter().copied().collect::<BTreeSet<_>>(), out, "witnesses out of consensus");
    let errors: Vec<_> = if honest == 0 && fork2 { revealers.clone() } else { revealers.iter().zip(&flags).filter(|x| *x.1 % 2 == 1).map(|x| *x.0).collect() };
    same!(got.error_committers, errors, "witnesses that reported errors");
    // Payments.
    let lost = (commits - reveals + flags.iter().filter(|f| **f == 2).count()) as u128 * col as u128;
    let share = if forks.len() == 2 || honest == 0 { 0 } else { lost / honest as u128 };
    let mut pay: Vec<(PublicKeyHash, u128)> = vec![];
    if version < ProtocolVersion::V2_0 {
        if honest == 0 {
            pay.extend(committers.iter().map(|p| (*p, col as u128)));
        } else {
            for (p, f) in revealers.iter().zip(&flags) {
                match f {
                    0 | 1 => pay.push((*p, reward as u128 + col as u128 + share)),
                    3 => pay.push((*p, col as u128)),
                    _ => {}
                }
            }
        }
    }
    let change = reward as u128 * (witnesses - honest) as u128 + fee as u128 * (2 * witnesses - commits - reveals) as u128;
    let mut paid: Vec<_> = got.outputs.iter().map(|o| (o.pkh, o.value as u128)).collect();
    ensure!(got.outputs.iter().all(|o| o.time_lock == 0), "locked outputs");
    if change > 0 {
        same!(paid.pop(), Some((pkh(77), change)), "change of the request's creator");
    }
    if honest == 0 {
        paid.sort();
        pay.sort();
    }
    same!(paid, pay, "payments");
    // Nothing is created: what comes in is the request's value and the collaterals, less the fees miners took.
    let total_in = (reward + 2 * fee) as u128 * witnesses as u128 + commits as u128 * col as u128 - fee as u128 * (commits + reveals) as u128;
    let total_out: u128 = got.outputs.iter().map(|o| o.value as u128).sum();
    let rest = if version >= ProtocolVersion::V2_0 {
        honest as u128 * reward as u128 + commits as u128 * col as u128
    } else if honest == 0 {
        0
    } else if forks.len() == 2 {
        lost
    } else {
        lost % honest as u128
    };
    same!(total_out + rest, total_in, "value in and out");
    c.outcome(if honest == 0 { "no witness in consensus" } else if out.is_empty() { "all in consensus" } else { "some in consensus" });
    Ok(())
}

fn numbers(c: &mut Ch) -> Result<(), String> {
    match c.pick(3) {
        0 => {
            let (cl, min, r) = (c.of(&[0, 1, 7, 1000, u64::MAX]), c.of(&[0, 1, 50, u64::MAX]), c.of(&[0, 1, 3, 7, 999, u64::MAX]));
            let x = if cl == 0 { min } else { cl };
            let exp = if r == 0 { u64::MAX } else { (x as u128).div_ceil(r as u128) as u64 };
            same!(calculate_reward_collateral_ratio(cl, min, r), exp, "ratio of {cl} (or {min}) to {r}");
        }
        1 => {
            let w = c.of(&[0u16, 1, 2, 3, 100, 127, 32767, 65535]);
            let r = c.pick(20) as u16;
            // Half the witnesses, doubled with every round after the first, as far as 16 bits go.
            let exp = (w as u128 * (1u128 << r.saturating_sub(1)).min(65535)).min(65535) / 2;
            same!(calculate_backup_witnesses(w, r) as u128, exp, "backup witnesses for {w} in round {r}");
        }
        _ => {
            let (w, v) = (c.pick(12) as u16, c.pick(40));
            let dr = DataRequestOutput { witnesses: w, ..Default::default() };
            for e in [0, V2 - 1, V2, V2 + 1] {
                same!(data_request_has_too_many_witnesses(&dr, v, Some(e)), e >= V2 && w as usize > v / 4, "{w} witnesses of {v} validators at {e}");
            }
        }
    }
    Ok(())
}

pub fn tally(run: &mut Run) {
    register_protocol_version(ProtocolVersion::V2_0, V2, 20);
    run.assume("Before the second hard fork a tally without witnesses in consensus was not defined (that fork defined it); those are left out, as is version 2 without that fork.");
    let max = run.pick(7, 10);
    explore(run, "tally", |c| one_tally(c, max));
    explore(run, "numbers", numbers);
}
