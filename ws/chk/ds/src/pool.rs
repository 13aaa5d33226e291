//! The pool of transactions waiting for a block.
use crate::utxo::{pkh, ptr, vto};
use mc::{Ch, Run, System, bfs, ensure, explore, fp, same};
use std::collections::{BTreeMap, BTreeSet};
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::error::TransactionError;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::{DataRequestEligibilityClaim, VrfProof};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Kind {
    Vt,
    Dr,
    St,
    Ut,
}
const KINDS: [Kind; 4] = [Kind::Vt, Kind::Dr, Kind::St, Kind::Ut];

struct Tx {
    kind: Kind,
    tx: Transaction,
    hash: Hash,
    weight: u64,
    inputs: Vec<u8>,
    collateral: u64,
    reward: u64,
}

fn ins(v: &[u8]) -> Vec<Input> {
    v.iter().map(|i| Input::new(ptr(*i, 0))).collect()
}
pub fn key(x: u8) -> PublicKey {
    PublicKey { compressed: 2 + x % 2, bytes: [x; 32] }
}
pub fn ksig(x: u8) -> KeyedSignature {
    KeyedSignature { signature: Signature::default(), public_key: key(x) }
}

fn universe(full: bool) -> Vec<Tx> {
    let vt = |i: &[u8], n: usize, tag: u64| Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(ins(i), (0..n).map(|_| vto(1, 10 + tag, 0)).collect()), vec![]));
    let dr = |i: &[u8], c: u64, r: u64| {
        Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(ins(i), DataRequestOutput { witnesses: 2, collateral: c, witness_reward: r, ..Default::default() }, vec![]), vec![]))
    };
    let st = |i: &[u8], tag: u64| Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(ins(i), StakeOutput { value: tag, ..Default::default() }, None), vec![]));
    let ut = |tag: u64| Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(2), vto(1, tag, 0), 1, tag), KeyedSignature::default()));
    let mut v: Vec<(Transaction, Vec<u8>)> = vec![
        (vt(&[1], 1, 0), vec![1]),
        (vt(&[1, 2], 1, 1), vec![1, 2]),
        (dr(&[2], 100, 1), vec![2]),
        (dr(&[3], 0, 5), vec![3]),
        (st(&[3], 1), vec![3]),
        (ut(1), vec![]),
    ];
    if full {
        v.extend([(vt(&[4], 3, 2), vec![4]), (dr(&[1, 4], 10_000, 7), vec![1, 4]), (st(&[2, 4], 2), vec![2, 4]), (ut(2), vec![])]);
    }
    v.into_iter()
        .map(|(tx, inputs)| {
            let (kind, weight, collateral, reward) = match &tx {
                Transaction::ValueTransfer(t) => (Kind::Vt, 133 * t.body.inputs.len() as u64 + 360 * t.body.outputs.len() as u64, 0, 0),
                Transaction::DataRequest(t) => (Kind::Dr, t.weight() as u64, t.body.dr_output.collateral, t.body.dr_output.witness_reward),
                Transaction::Stake(t) => (Kind::St, 133 * t.body.inputs.len() as u64 + 105, 0, 0),
                _ => (Kind::Ut, 153, 0, 0),
            };
            Tx { kind, hash: tx.hash(), tx, weight, inputs, collateral, reward }
        })
        .collect()
}

#[derive(Clone, Debug, Hash)]
enum Op {
    Insert(usize, u64),
    /// the transaction appears in a block
    Consolidate(usize),
    RemoveInputs(Vec<u8>),
    Limit(u64, u32),
    MinFee(u64),
    Collateral(u64),
    Ratio(u64),
    ClearSt,
    ClearUt,
    InvalidSt(Vec<usize>),
    InvalidUt(Vec<usize>),
    Clear,
    Broadcast(usize),
    Superblock,
    Reorganize,
}

#[derive(Clone)]
struct S {
    pool: TransactionsPool,
    /// index -> fee
    content: BTreeMap<usize, u64>,
    limit: u64,
    factor: u32,
    minfee: u64,
    cmin: u64,
    ratio: u64,
    now: Vec<usize>,
    prev: Vec<usize>,
}
struct Pool {
    u: Vec<Tx>,
    ops: Vec<Op>,
}

impl Pool {
    fn ratio(&self, s: &S, i: usize) -> u64 {
        let t = &self.u[i];
        if t.reward == 0 { u64::MAX } else { (if t.collateral == 0 { s.cmin } else { t.collateral }).div_ceil(t.reward) }
    }
    fn weight(&self, s: &S, k: &[Kind]) -> u64 {
        s.content.keys().filter(|i| k.contains(&self.u[**i].kind)).map(|i| self.u[*i].weight).sum()
    }
    /// The transactions of a kind from the least to the most profitable (by fee/weight, then hash).
    fn order(&self, s: &S, k: Kind) -> Vec<usize> {
        let mut v: Vec<usize> = s.content.keys().copied().filter(|i| self.u[*i].kind == k).collect();
        v.sort_by(|a, b| {
            let (x, y) = (s.content[a] as u128 * self.u[*b].weight as u128, s.content[b] as u128 * self.u[*a].weight as u128);
            x.cmp(&y).then(self.u[*a].hash.cmp(&self.u[*b].hash))
        });
        v
    }
    /// Transactions dropped to respect the weight limit, in order.
    fn evict(&self, s: &mut S) -> Vec<usize> {
        let mut out = vec![];
        while self.weight(s, &KINDS) > s.limit {
            let (v, d) = (self.weight(s, &[Kind::Vt]), self.weight(s, &[Kind::Dr]));
            let kind = match (v, d) {
                (0, 0) if self.weight(s, &[Kind::St]) > 0 => Kind::St,
                (0, 0) => Kind::Ut,
                (v, d) if v >= d * s.factor as u64 => Kind::Vt,
                _ => Kind::Dr,
            };
            let i = self.order(s, kind)[0];
            s.content.remove(&i);
            out.push(i);
        }
        out
    }
    fn drop_spenders(&self, s: &mut S, inputs: &[u8]) {
        s.content.retain(|i, _| !self.u[*i].inputs.iter().any(|x| inputs.contains(x)));
    }
    fn hashes(&self, v: &[usize]) -> Vec<Hash> {
        v.iter().map(|i| self.u[*i].hash).collect()
    }
}

impl System for Pool {
    type S = S;
    type A = Op;
    fn init(&self) -> Vec<S> {
        vec![S { pool: TransactionsPool::new(), content: BTreeMap::new(), limit: u64::MAX, factor: 1, minfee: 0, cmin: 0, ratio: u64::MAX, now: vec![], prev: vec![] }]
    }
    fn actions(&self, s: &S) -> Vec<Op> {
        let mut v = self.ops.clone();
        // The callers insert only what is not there; at most two broadcasts are followed.
        v.retain(|o| match o {
            Op::Insert(i, _) => !s.content.contains_key(i),
            Op::Broadcast(_) => s.now.len() < 2,
            Op::Limit(l, f) => (*l, *f) != (s.limit, s.factor),
            Op::MinFee(x) => *x != s.minfee,
            Op::Collateral(x) => *x * 20 != s.cmin,
            Op::Ratio(x) => *x != s.ratio,
            _ => true,
        });
        v
    }
    fn step(&self, s: &mut S, a: &Op) -> Result<(), String> {
        match a {
            Op::Insert(i, fee) => {
                let t = &self.u[*i];
                let out: Vec<Hash> = s.pool.insert(t.tx.clone(), *fee).iter().map(|t| t.hash()).collect();
                let refuse = match t.kind {
                    Kind::Vt => *fee < s.minfee,
                    Kind::Dr => self.ratio(s, *i) > s.ratio,
                    _ => false,
                };
                if refuse {
                    same!(out, vec![t.hash], "refused");
                } else {
                    s.content.insert(*i, *fee);
                    let e = self.evict(s);
                    same!(out, self.hashes(&e), "dropped for the weight limit");
                }
            }
            Op::Consolidate(i) => {
                let t = &self.u[*i];
                let had = s.content.remove(i).is_some();
                self.drop_spenders(s, &t.inputs);
                let got = match &t.tx {
                    Transaction::ValueTransfer(x) => s.pool.vt_remove(x).map(|x| x.hash()),
                    Transaction::DataRequest(x) => s.pool.dr_remove(x).map(|x| x.hash()),
                    Transaction::Stake(x) => s.pool.st_remove(x).map(|x| x.hash()),
                    Transaction::Unstake(x) => s.pool.ut_remove(x).map(|x| x.hash()),
                    _ => None,
                };
                same!(got, had.then_some(t.hash), "removed");
            }
            Op::RemoveInputs(v) => {
                s.pool.remove_inputs(&ins(v));
                self.drop_spenders(s, v);
            }
            Op::Limit(l, f) => {
                let out: Vec<Hash> = s.pool.set_total_weight_limit(*l, *f as f64).iter().map(|t| t.hash()).collect();
                (s.limit, s.factor) = (*l, *f);
                let e = self.evict(s);
                same!(out, self.hashes(&e), "dropped for the new weight limit");
            }
            Op::MinFee(x) => {
                s.pool.set_minimum_vtt_fee(*x);
                s.minfee = *x;
            }
            Op::Collateral(x) => {
                s.pool.set_collateral_minimum(*x);
                s.cmin = 20 * *x;
            }
            Op::Ratio(x) => {
                s.pool.set_required_reward_collateral_ratio(*x);
                s.ratio = *x;
            }
            Op::ClearSt => {
                s.pool.clear_stake_transactions();
                s.content.retain(|i, _| self.u[*i].kind != Kind::St);
            }
            Op::ClearUt => {
                s.pool.clear_unstake_transactions();
                s.content.retain(|i, _| self.u[*i].kind != Kind::Ut);
            }
            Op::InvalidSt(v) => {
                s.pool.remove_invalid_stake_transactions(self.hashes(v));
                s.content.retain(|i, _| self.u[*i].kind != Kind::St || !v.contains(i));
            }
            Op::InvalidUt(v) => {
                s.pool.remove_invalid_unstake_transactions(self.hashes(v));
                s.content.retain(|i, _| self.u[*i].kind != Kind::Ut || !v.contains(i));
            }
            Op::Clear => {
                s.pool.clear();
                s.content.clear();
                s.now.clear();
                s.prev.clear();
            }
            Op::Broadcast(i) => {
                s.pool.insert_unconfirmed_transactions(self.u[*i].hash);
                s.now.push(*i);
            }
            Op::Superblock => {
                s.pool.update_unconfirmed_transactions();
                s.prev = std::mem::take(&mut s.now);
            }
            Op::Reorganize => {
                let out: Vec<Hash> = s.pool.remove_unconfirmed_transactions().iter().map(|t| t.hash()).collect();
                let mut exp = vec![];
                for i in s.now.iter().chain(&s.prev) {
                    if s.content.remove(i).is_some() {
                        exp.push(self.u[*i].hash);
                    }
                }
                s.now.clear();
                s.prev.clear();
                same!(out, exp, "unconfirmed transactions taken out");
            }
        }
        Ok(())
    }
    fn check(&self, s: &S) -> Result<(), String> {
        same!(s.pool.total_transactions_weight(), self.weight(s, &KINDS), "total weight");
        ensure!(s.pool.total_transactions_weight() <= s.limit, "over the weight limit");
        same!(s.pool.is_empty(), s.content.is_empty(), "empty");
        let listed = [
            (Kind::Vt, s.pool.vt_iter().map(|x| x.hash()).collect::<Vec<_>>(), s.pool.vt_len()),
            (Kind::Dr, s.pool.dr_iter().map(|x| x.hash()).collect(), s.pool.dr_len()),
            (Kind::St, s.pool.st_iter().map(|x| x.hash()).collect(), s.pool.st_len()),
            (Kind::Ut, s.pool.ut_iter().map(|x| x.hash()).collect(), s.pool.ut_len()),
        ];
        for (k, l, n) in listed {
            let mut o = self.order(s, k);
            o.reverse();
            same!(l, self.hashes(&o), "{k:?} transactions, the most profitable first");
            same!(n, o.len(), "number of {k:?}");
        }
        for (i, t) in self.u.iter().enumerate() {
            let has = s.content.contains_key(&i);
            same!(s.pool.contains(&t.tx).map_err(|e| e.to_string()), Ok(has), "contains {i}");
            same!(s.pool.get(&t.hash), has.then(|| t.tx.clone()), "get {i}");
            same!(s.pool.vt_get(&t.hash).is_some(), has && t.kind == Kind::Vt, "vt_get {i}");
        }
        // What conflicts with what is remembered exactly: every input, spent on a copy, drops its spenders.
        for input in 1..=4u8 {
            let mut c = s.clone();
            c.pool.remove_inputs(&ins(&[input]));
            self.drop_spenders(&mut c, &[input]);
            let left: BTreeSet<Hash> = c.pool.vt_iter().map(|x| x.hash()).chain(c.pool.dr_iter().map(|x| x.hash())).chain(c.pool.st_iter().map(|x| x.hash())).chain(c.pool.ut_iter().map(|x| x.hash())).collect();
            same!(left, c.content.keys().map(|i| self.u[*i].hash).collect(), "left after output {input} is spent");
            same!(c.pool.total_transactions_weight(), self.weight(&c, &KINDS), "weight after output {input} is spent");
        }
        Ok(())
    }
    fn key(&self, s: &S) -> u128 {
        fp(&(&s.content, s.limit, s.factor, s.minfee, s.cmin, s.ratio, &s.now, &s.prev))
    }
}

// ---------------------------------------------------------------------------------------------
// Commits and reveals

fn commit(dr: u8, who: u8, col: &[u8], tag: u8) -> CommitTransaction {
    let proof = DataRequestEligibilityClaim { proof: serde_json::from_value::<VrfProof>(serde_json::json!({ "proof": [tag], "public_key": key(who) })).unwrap() };
    CommitTransaction::new(CommitTransactionBody::new(drp(dr), Hash::SHA256([tag; 32]), proof, ins(col), vec![], None), vec![ksig(who)])
}
fn reveal(dr: u8, who: u8, tag: u8) -> RevealTransaction {
    RevealTransaction::new(RevealTransactionBody::new(drp(dr), vec![tag], key(who).pkh()), vec![ksig(who)])
}
fn drtx(i: u8) -> DRTransaction {
    DRTransaction::new(DRTransactionBody::new(ins(&[200 + i]), DataRequestOutput { witnesses: 1 + i as u16 % 2, commit_and_reveal_fee: 10 + i as u64, ..Default::default() }, vec![]), vec![ksig(9)])
}
fn drp(i: u8) -> Hash {
    drtx(i).hash()
}

/// Commits for three requests (two known, asking for 1 and 2 witnesses; the last one unknown).
fn commits(c: &mut Ch, thorough: bool) -> Result<(), String> {
    let mut pool = TransactionsPool::new();
    let mut drs = DataRequestPool::new(1);
    for i in 0..2 {
        drs.process_data_request(&drtx(i), 0, None).unwrap();
    }
    if c.flag() {
        pool.insert(drtx(0).into(), 1);
    }
    let n = c.pick(if thorough { 5 } else { 4 });
    let mut spec: Vec<(u8, u8, Vec<u8>, Hash)> = vec![];
    let mut txs = vec![];
    // commits sorted by request and author: their order does not matter
    let mut slot = 0;
    for t in 0..n {
        slot += c.pick(9 - slot);
        let (dr, who) = (slot as u8 / 3, slot as u8 % 3);
        let col = c.of(&[vec![], vec![1u8], vec![2], vec![1, 2], vec![3], vec![1, 1]]);
        let tx = commit(dr, who, &col, t as u8);
        c.op(|| format!("commit of {who} for request {dr} with collateral {col:?}"));
        let dup = spec.iter().find(|x| (x.0, x.1) == (dr, who)).is_some();
        let has = pool.contains(&tx.clone().into());
        if dup {
            same!(has.err(), Some(TransactionError::DuplicatedCommit { pkh: key(who).pkh(), dr_pointer: drp(dr) }), "a second commit of the same witness");
            continue;
        }
        same!(has.ok(), Some(false), "contains a new commit");
        same!(pool.insert(tx.clone().into(), 0), vec![], "dropped");
        same!(pool.contains(&tx.clone().into()).ok(), Some(true), "contains the commit");
        same!(pool.get(&tx.hash()), Some(tx.clone().into()), "get the commit");
        spec.push((dr, who, col, tx.hash()));
        txs.push(tx);
    }
    let before = pool.total_transactions_weight();
    let (got, fee, served) = pool.remove_commits(&drs);
    c.op(|| format!("taken {:?}", got.iter().map(|t| t.body.commitment).collect::<Vec<_>>()));
    // Exactly the number of witnesses for each request served, and no coin is used twice.
    let served_set: BTreeSet<Hash> = served.iter().copied().collect();
    same!(served_set.len(), served.len(), "requests served once");
    let mut coins = vec![];
    let mut expected_fee = 0;
    for d in 0..3u8 {
        let mine: Vec<_> = got.iter().filter(|t| t.body.dr_pointer == drp(d)).collect();
        let w = 1 + d as usize % 2;
        if served_set.contains(&drp(d)) {
            same!(mine.len(), w, "commits of request {d}");
            expected_fee += w as u64 * (10 + d as u64);
        } else {
            same!(mine.len(), 0, "commits of request {d}, which is not served");
        }
        let authors: BTreeSet<_> = mine.iter().map(|t| t.signatures[0].public_key.pkh()).collect();
        same!(authors.len(), mine.len(), "authors of request {d}");
        for t in &mine {
            ensure!(txs.contains(t), "a commit that was not inserted");
            coins.extend(t.body.collateral.iter().map(|i| *i.output_pointer()));
        }
    }
    ensure!(!served_set.contains(&drp(2)), "an unknown request is served");
    same!(fee, expected_fee, "fees");
    let distinct: BTreeSet<_> = coins.iter().copied().collect();
    same!(distinct.len(), coins.len(), "coins used once");
    // A request is left out only because its commits do not suffice, or their coins are taken.
    for d in 0..2u8 {
        let mine: Vec<_> = spec.iter().filter(|x| x.0 == d).collect();
        let free: Vec<_> = mine.iter().filter(|x| x.2 != [1, 1] && !x.2.iter().any(|i| distinct.contains(&ptr(*i, 0)))).collect();
        let disjoint = free.iter().enumerate().all(|(i, x)| free[..i].iter().all(|y| !x.2.iter().any(|k| y.2.contains(k))));
        let w = 1 + d as usize % 2;
        ensure!(served_set.contains(&drp(d)) || free.len() < w || (w > 1 && !disjoint), "request {d} has {} usable commits and is not served", free.len());
    }
    // All the commits of the epoch are gone.
    for tx in &txs {
        same!(pool.contains(&tx.clone().into()).ok(), Some(false), "contains a commit afterwards");
        same!(pool.get(&tx.hash()), None, "get a commit afterwards");
    }
    same!(pool.total_transactions_weight(), before, "weight");
    same!(pool.remove_commits(&drs), (vec![], 0, vec![]), "taking the commits again");
    c.outcome(&format!("{} requests served", served.len()));
    Ok(())
}

fn reveals(c: &mut Ch, depth: usize) -> Result<(), String> {
    let mut pool = TransactionsPool::new();
    let mut drs = DataRequestPool::new(1);
    for i in 0..2 {
        drs.process_data_request(&drtx(i), 0, None).unwrap();
    }
    let mut spec: BTreeMap<(u8, u8), u8> = BTreeMap::new();
    for _ in 0..depth {
        match c.pick(5) {
            0 | 1 => {
                let (d, w, t) = (c.pick(3) as u8, c.pick(2) as u8, c.pick(2) as u8);
                c.op(|| format!("reveal {t} of {w} for request {d}"));
                let tx = reveal(d, w, t);
                match spec.get(&(d, w)) {
                    None => {
                        same!(pool.contains(&tx.clone().into()).ok(), Some(false), "contains");
                        same!(pool.insert(tx.clone().into(), 0), vec![], "dropped");
                        spec.insert((d, w), t);
                    }
                    Some(x) if *x == t => same!(pool.contains(&tx.clone().into()).ok(), Some(true), "contains"),
                    Some(_) => same!(pool.contains(&tx.clone().into()).err(), Some(TransactionError::DuplicatedReveal { pkh: key(w).pkh(), dr_pointer: drp(d) }), "a second reveal"),
                }
            }
            2 => {
                // a block has a reveal
                let (d, w, t) = (c.pick(3) as u8, c.pick(2) as u8, c.pick(2) as u8);
                c.op(|| format!("block with reveal {t} of {w} for request {d}"));
                let tx = reveal(d, w, t);
                let had = spec.get(&(d, w)) == Some(&t);
                same!(pool.remove_one_reveal(&drp(d), &key(w).pkh(), &tx.hash()), had.then_some(tx), "removed");
                if had {
                    spec.remove(&(d, w));
                }
            }
            3 => {
                let d = c.pick(3) as u8;
                c.op(|| format!("request {d} finishes"));
                pool.clear_reveals_from_finished_dr(&drp(d));
                spec.retain(|k, _| k.0 != d);
            }
            _ => {
                c.op(|| "clear".into());
                pool.clear_reveals();
                spec.clear();
            }
        }
        let (got, fee) = pool.get_reveals(&drs);
        let exp: BTreeMap<Hash, RevealTransaction> = spec.iter().filter(|x| x.0.0 < 2).map(|((d, w), t)| (reveal(*d, *w, *t), ())).map(|x| (x.0.hash(), x.0)).collect();
        same!(got.len(), exp.len(), "number of reveals");
        same!(got.into_iter().map(|t| (t.hash(), t.clone())).collect::<BTreeMap<_, _>>(), exp, "reveals");
        same!(fee, spec.keys().filter(|k| k.0 < 2).map(|k| 10 + k.0 as u64).sum::<u64>(), "fees");
        same!(pool.is_empty(), spec.is_empty(), "empty");
        for d in 0..3 {
            for w in 0..2 {
                for t in 0..2 {
                    let tx = reveal(d, w, t);
                    same!(pool.get(&tx.hash()), (spec.get(&(d, w)) == Some(&t)).then(|| tx.into()), "get reveal {t} of {w} for {d}");
                }
            }
        }
        c.state(&spec);
    }
    Ok(())
}

pub fn pool(run: &mut Run) {
    let t = run.thorough();
    run.assume("A transaction is inserted only when contains() says it is not there, as the node does, and never spends the same output twice.");
    run.assume("The value transfer to data request factor is positive.");
    run.assume("The order in which remove_commits visits the requests is the hash map's; what it returns is judged for whatever order it took.");
    let small = |full: bool, rich: bool| {
        let u = universe(full);
        let n = u.len();
        let mut ops = vec![];
        for i in 0..n {
            ops.push(Op::Insert(i, 10_000));
            ops.push(Op::Consolidate(i));
            if rich || i == 0 || i == 2 {
                ops.push(Op::Insert(i, 400));
            }
        }
        ops.push(Op::RemoveInputs(vec![1]));
        ops.push(Op::RemoveInputs(vec![3, 2]));
        ops.push(Op::ClearSt);
        ops.push(Op::ClearUt);
        let of = |k: Kind| (0..n).filter(|i| u[*i].kind == k).collect::<Vec<_>>();
        ops.push(Op::InvalidSt(of(Kind::St)[..1].to_vec()));
        ops.push(Op::InvalidUt(of(Kind::Ut)[..1].to_vec()));
        if rich {
            ops.push(Op::InvalidSt((0..n).collect()));
            ops.push(Op::InvalidUt((0..n).collect()));
            ops.push(Op::Clear);
        }
        Pool { u, ops }
    };
    // Contents: what is in the pool after any history.
    bfs(run, "contents", &small(true, true), 12, 100_000);
    // Weight limits and admission rules.
    let mut y = small(false, false);
    let all: u64 = y.u.iter().map(|x| x.weight).sum();
    let ut = 153;
    for (l, f) in [(u64::MAX, 1), (all - 1, 1), (all / 2, 4), (ut, 1), (1100, 1), (1099, 2), (0, 1)] {
        y.ops.push(Op::Limit(l, f));
    }
    bfs(run, "limits", &y, if t { 12 } else { 9 }, if t { 400_000 } else { 60_000 });
    let mut y = small(true, false);
    y.ops.retain(|o| matches!(o, Op::Insert(..)));
    y.ops.extend([Op::MinFee(0), Op::MinFee(401), Op::MinFee(400), Op::Collateral(0), Op::Collateral(1), Op::Collateral(50), Op::Ratio(100), Op::Ratio(99), Op::Ratio(4), Op::Ratio(u64::MAX), Op::Ratio(1429), Op::Ratio(1428)]);
    bfs(run, "admission", &y, if t { 7 } else { 4 }, if t { 400_000 } else { 60_000 });
    // Unconfirmed transactions.
    let mut y = small(false, false);
    y.ops.retain(|o| matches!(o, Op::Insert(_, 10_000) | Op::Consolidate(_)));
    y.ops.extend([Op::Superblock, Op::Reorganize]);
    for i in [0, 1, 2, 4, 5] {
        y.ops.push(Op::Broadcast(i));
    }
    bfs(run, "unconfirmed", &y, if t { 8 } else { 5 }, if t { 400_000 } else { 60_000 });
    explore(run, "commits", |c| commits(c, t));
    let depth = run.pick(3, 4);
    explore(run, "reveals", |c| reveals(c, depth));
}
