//! Building transactions from the node's unspent outputs.
use crate::utxo::{pkh, ptr, vto};
use mc::{Ch, Run, ensure, explore, same};
use std::collections::{BTreeMap, BTreeSet};
use witnet_data_structures::chain::*;
use witnet_data_structures::error::TransactionError;
use witnet_data_structures::fee::Fee;
use witnet_data_structures::staking::helpers::StakeKey;
use witnet_data_structures::transaction_factory::*;
use witnet_data_structures::utxo_pool::*;
use witnet_data_structures::wit::Wit;

const NOW: u64 = 1000;
const TIMEOUT: u64 = 60;

#[derive(Clone, Debug)]
struct Coin {
    ptr: OutputPointer,
    value: u64,
    /// own, usable at NOW
    usable: bool,
    block: u32,
    mark: u64,
}
struct Wallet {
    all: UnspentOutputsPool,
    own: OwnUnspentOutputsPool,
    coins: Vec<Coin>,
}

/// A wallet of up to `max` own outputs (value, time lock or pending mark) and one of somebody else.
fn wallet(c: &mut Ch, max: usize, values: &[u64]) -> Wallet {
    let mut w = Wallet { all: UnspentOutputsPool::default(), own: OwnUnspentOutputsPool::new(), coins: vec![] };
    w.all.insert(ptr(99, 0), vto(1, 1 << 40, 0), 0);
    let n = c.pick(max + 1);
    // A sorted multiset of values: the order of insertion has no meaning.
    let mut lo = 0;
    for i in 0..n {
        lo += c.pick(values.len() - lo);
        let value = values[lo];
        let (lock, mark) = c.of(&[(0, 0), (NOW, NOW), (NOW + 1, 0), (0, NOW + 1)]);
        let block = i as u32 % 3;
        let p = ptr(i as u8, i as u32 * 3 % 2);
        w.all.insert(p, vto(0, value, lock), block);
        w.own.insert(p, mark);
        w.coins.push(Coin { ptr: p, value, usable: lock <= NOW && mark <= NOW, block, mark });
    }
    w
}
fn marks(o: &OwnUnspentOutputsPool) -> BTreeMap<OutputPointer, u64> {
    o.iter().map(|(k, v)| (*k, *v)).collect()
}

/// What the built transaction must look like, whatever it is.
#[allow(clippy::too_many_arguments)]
fn verify(w: &Wallet, before: &BTreeMap<OutputPointer, u64>, inputs: &[Input], change: Option<&ValueTransferOutput>, spent: u64, fee: u64, strategy: &UtxoSelectionStrategy, limit: Option<u32>, dry: bool) -> Result<(), String> {
    let ins: Vec<OutputPointer> = inputs.iter().map(|i| *i.output_pointer()).collect();
    let set: BTreeSet<_> = ins.iter().copied().collect();
    ensure!(!ins.is_empty() && set.len() == ins.len(), "inputs {ins:?} are not distinct");
    let mut sum = 0u64;
    for k in &ins {
        let coin = w.coins.iter().find(|x| x.ptr == *k).ok_or_else(|| format!("{k} is not ours"))?;
        ensure!(coin.usable, "{k} is locked or pending");
        ensure!(limit.is_none_or(|l| coin.block <= l), "{k} is too recent");
        sum += coin.value;
    }
    let ch = change.map_or(0, |x| x.value);
    same!(sum as u128, spent as u128 + fee as u128 + ch as u128, "inputs = outputs + fee + change");
    ensure!(change.is_none_or(|x| x.value > 0 && x.pkh == pkh(0) && x.time_lock == 0), "change {change:?}");
    // The strategy's order, and no more inputs than needed.
    let value = |k: &OutputPointer| w.coins.iter().find(|x| x.ptr == *k).unwrap().value;
    let mut eligible: Vec<u64> = w.coins.iter().filter(|x| x.usable && limit.is_none_or(|l| x.block <= l)).map(|x| x.value).collect();
    eligible.sort();
    match strategy {
        UtxoSelectionStrategy::BigFirst { .. } => eligible.reverse(),
        UtxoSelectionStrategy::SmallFirst { .. } => {}
        UtxoSelectionStrategy::Random { .. } => eligible.clear(),
    }
    if !eligible.is_empty() {
        same!(ins.iter().map(value).collect::<Vec<_>>(), eligible[..ins.len()].to_vec(), "values of the inputs, in the strategy's order");
    }
    ensure!(sum - value(ins.last().unwrap()) < spent + fee, "the last input is not needed");
    let mut exp = before.clone();
    if !dry {
        for k in &ins {
            exp.insert(*k, NOW + TIMEOUT);
        }
    }
    same!(marks(&w.own), exp, "pending marks");
    Ok(())
}

fn strategy(c: &mut Ch) -> UtxoSelectionStrategy {
    let from = c.of(&[None, Some(pkh(0)), Some(pkh(1))]);
    match c.pick(3) {
        0 => UtxoSelectionStrategy::BigFirst { from },
        1 => UtxoSelectionStrategy::SmallFirst { from },
        _ => UtxoSelectionStrategy::Random { from },
    }
}
fn fee(c: &mut Ch, rel: &[f64]) -> (Fee, Option<f64>) {
    let k = c.pick(3 + rel.len());
    if k < 3 { (Fee::absolute_from_nanowits([0, 1, 3][k]), None) } else { (Fee::relative_from_float(rel[k - 3]), Some(rel[k - 3])) }
}
/// The total an order of the coins can offer.
fn offer(w: &Wallet, s: &UtxoSelectionStrategy, limit: Option<u32>) -> (u64, u64) {
    if s.get_from().is_some_and(|f| f != pkh(0)) {
        return (0, 0);
    }
    (w.coins.iter().filter(|x| x.usable && limit.is_none_or(|l| x.block <= l)).map(|x| x.value).sum(), w.coins.iter().map(|x| x.value).sum())
}
fn no_money(e: &TransactionError, need: u64, avail: u64, total: u64) -> Result<(), String> {
    match e {
        TransactionError::NoMoney { total_balance, available_balance, transaction_value } => {
            same!((*total_balance, *available_balance), (total, avail), "balances reported");
            ensure!(*transaction_value == need && need > avail, "refused {transaction_value}, needs {need} of {avail}");
            Ok(())
        }
        TransactionError::ZeroAmount if need == 0 => Ok(()),
        e => Err(format!("refused with {e:?}")),
    }
}

fn vtt(c: &mut Ch, thorough: bool) -> Result<(), String> {
    let mut w = wallet(c, if thorough { 4 } else { 3 }, &[1, 2, 5]);
    let outs: Vec<ValueTransferOutput> = c.of(&[vec![], vec![0u64], vec![1], vec![4], vec![2, 2], vec![5, 3]]).into_iter().enumerate().map(|(i, v)| vto(i as u8 * 2, v, i as u64)).collect();
    let (f, rel) = fee(c, &[0.0, 0.001, 0.004]);
    let s = strategy(c);
    let dry = c.flag();
    // weights: one, two, three inputs (with one output for change)
    let max = c.of(&[20_000u32, 133 + 360 * (outs.len() as u32 + 1), 133 * 2 + 360 * (outs.len() as u32 + 1) - 1]);
    let before = marks(&w.own);
    c.op(|| format!("coins {:?}, pay {:?} with fee {f:?}, {s:?}, weight limit {max}, dry {dry}", w.coins.iter().map(|x| (x.value, x.usable)).collect::<Vec<_>>(), outs.iter().map(|o| o.value).collect::<Vec<_>>()));
    let pay: u64 = outs.iter().map(|o| o.value).sum();
    let r = build_vtt(outs.clone(), f, &mut w.own, pkh(0), &w.all, NOW, TIMEOUT, &s, max, dry);
    let (avail, total) = offer(&w, &s, None);
    match r {
        Ok(b) => {
            ensure!(b.outputs.len() >= outs.len() && b.outputs[..outs.len()] == outs[..], "outputs changed");
            ensure!(b.outputs.len() <= outs.len() + 1, "more than one change output");
            let change = b.outputs.get(outs.len());
            let full = 133 * b.inputs.len() as u32 + 360 * (outs.len() as u32 + 1);
            let fee = match rel {
                None => match f { Fee::Absolute(a) => a.as_nanowits(), _ => unreachable!() },
                Some(p) => (p * full as f64) as u64,
            };
            verify(&w, &before, &b.inputs, change, pay, fee, &s, None, dry)?;
            same!(b.weight(), 133 * b.inputs.len() as u32 + 360 * b.outputs.len() as u32, "weight");
            if rel.is_some() {
                ensure!(b.weight() <= max, "weight {} above the limit {max}", b.weight());
            }
            same!(b.value(), pay + change.map_or(0, |x| x.value), "value of the outputs");
            c.outcome(if change.is_some() { "paid with change" } else { "paid exactly" });
            // What was just used cannot be used again until the timeout.
            if !dry {
                c.op(|| "and once more".into());
                let left: u64 = w.coins.iter().filter(|x| x.usable && !b.inputs.iter().any(|i| *i.output_pointer() == x.ptr)).map(|x| x.value).sum();
                let again = build_vtt(vec![vto(2, 1, 0)], Fee::absolute_from_nanowits(0), &mut w.own, pkh(0), &w.all, NOW, TIMEOUT, &s, 20_000, false);
                same!(again.is_ok(), left >= 1, "second payment");
                if let Ok(a) = again {
                    ensure!(a.inputs.iter().all(|i| !b.inputs.contains(i)), "an input is used twice");
                }
                let late = build_vtt(vec![vto(2, total.max(1), 0)], Fee::absolute_from_nanowits(0), &mut w.own, pkh(0), &w.all, NOW + TIMEOUT, TIMEOUT, &s, 20_000, true);
                same!(late.is_ok(), total > 0, "payment after the timeout");
            }
        }
        Err(TransactionError::ValueTransferWeightLimitExceeded { weight, max_weight }) => {
            same!(max_weight, max, "limit");
            ensure!(weight > max, "refused weight {weight} under the limit {max}");
            same!(marks(&w.own), before, "marks after a refusal");
            let one = 133 + 360 * (outs.len() as u32 + 1);
            if one <= max {
                // more than one input was needed
                let p = rel.ok_or("an absolute fee was refused for the number of inputs")?;
                ensure!(w.coins.iter().all(|x| !x.usable || x.value < pay + (p * max as f64) as u64) || !matches!(s, UtxoSelectionStrategy::BigFirst { .. }), "one input was enough");
            }
            c.outcome("refused: weight");
        }
        Err(e) => {
            same!(marks(&w.own), before, "marks after a refusal");
            let need = match f {
                Fee::Absolute(a) => pay + a.as_nanowits(),
                Fee::Relative(_) => match &e {
                    // The fee of the last attempt: some number of inputs within what was available.
                    TransactionError::NoMoney { transaction_value, .. } => {
                        let p = rel.unwrap();
                        let ok = (1..=w.coins.len().max(1)).any(|n| pay + (p * (133 * n as u32 + 360 * (outs.len() as u32 + 1)) as f64) as u64 == *transaction_value);
                        ensure!(ok, "amount {transaction_value} needed");
                        *transaction_value
                    }
                    _ => pay + (rel.unwrap() * (133 + 360 * (outs.len() as u32 + 1)) as f64) as u64,
                },
            };
            no_money(&e, need, avail, total)?;
            c.outcome("refused: money");
        }
    }
    c.state(&format!("{:?}", w.coins));
    Ok(())
}

fn drt(c: &mut Ch, _thorough: bool) -> Result<(), String> {
    let mut w = wallet(c, 3, &[3, 7, 20]);
    let dr = DataRequestOutput { witness_reward: c.of(&[0, 1, 3]), witnesses: c.of(&[0, 1, 2]), commit_and_reveal_fee: c.of(&[0, 2]), ..Default::default() };
    let pay = (dr.witness_reward + 2 * dr.commit_and_reveal_fee) * dr.witnesses as u64;
    let (f, rel) = fee(c, &[0.001, 0.003]);
    let dry = c.flag();
    let before = marks(&w.own);
    c.op(|| format!("coins {:?}, request {pay} with fee {f:?}, dry {dry}", w.coins.iter().map(|x| (x.value, x.usable)).collect::<Vec<_>>()));
    let s = UtxoSelectionStrategy::Random { from: None };
    let (avail, total) = offer(&w, &s, None);
    let weight = |n: usize| dr.weight() + dr.extra_weight() + 133 * n as u32 + 36;
    same!(dr.extra_weight(), dr.witnesses as u32 * (400 + 200 + 36) + 100, "extra weight");
    same!(dr.checked_total_value().map_err(|e| e.to_string()), Ok(pay), "value of the request");
    match build_drt(dr.clone(), f, &mut w.own, pkh(0), &w.all, NOW, TIMEOUT, 80_000, dry) {
        Ok(b) => {
            same!(b.dr_output, dr, "request");
            ensure!(b.outputs.len() <= 1, "more than one change output");
            let fee = match (f, rel) {
                (Fee::Absolute(a), _) => a.as_nanowits(),
                (_, p) => (p.unwrap() * weight(b.inputs.len()) as f64) as u64,
            };
            verify(&w, &before, &b.inputs, b.outputs.first(), pay, fee, &s, None, dry)?;
            same!(b.weight(), weight(b.inputs.len()) - if b.outputs.is_empty() { 36 } else { 0 }, "weight");
            c.outcome("built");
        }
        Err(e) => {
            same!(marks(&w.own), before, "marks after a refusal");
            let need = match (f, rel, &e) {
                (Fee::Absolute(a), ..) => pay + a.as_nanowits(),
                (_, Some(p), TransactionError::NoMoney { transaction_value, .. }) => {
                    ensure!((1..=3).any(|n| pay + (p * weight(n) as f64) as u64 == *transaction_value), "amount {transaction_value} needed");
                    *transaction_value
                }
                (_, p, _) => pay + (p.unwrap() * weight(1) as f64) as u64,
            };
            no_money(&e, need, avail, total)?;
            c.outcome("refused");
        }
    }
    c.state(&format!("{:?}", w.coins));
    Ok(())
}

fn stake(c: &mut Ch, thorough: bool) -> Result<(), String> {
    let mut w = wallet(c, if thorough { 4 } else { 3 }, &[1, 2, 6]);
    let out = StakeOutput { value: c.of(&[0, 1, 3, 7]), key: StakeKey { validator: pkh(3), withdrawer: pkh(4) }, authorization: KeyedSignature::default() };
    let (f, rel) = fee(c, &[0.001, 0.006, 0.011]);
    let s = strategy(c);
    let dry = c.flag();
    let max = c.of(&[10_000u32, 105 + 36 + 133, 105 + 133 + 36 + 133 + 1]);
    let before = marks(&w.own);
    c.op(|| format!("coins {:?}, stake {} with fee {f:?}, {s:?}, weight limit {max}, dry {dry}", w.coins.iter().map(|x| (x.value, x.usable)).collect::<Vec<_>>(), out.value));
    let (avail, total) = offer(&w, &s, None);
    let weight = |n: usize| 105 + 36 + 133 * n as u32;
    match build_st(out.clone(), f, &mut w.own, pkh(0), &w.all, NOW, TIMEOUT, &s, max, dry) {
        Ok(b) => {
            same!(b.output, out, "stake output");
            let fee = match (f, rel) {
                (Fee::Absolute(a), _) => a.as_nanowits(),
                (_, p) => (p.unwrap() * weight(b.inputs.len()) as f64) as u64,
            };
            verify(&w, &before, &b.inputs, b.change.as_ref(), out.value, fee, &s, None, dry)?;
            same!(b.weight(), weight(b.inputs.len()) - if b.change.is_none() { 36 } else { 0 }, "weight");
            ensure!(b.weight() <= max, "weight {} above the limit {max}", b.weight());
            c.outcome("built");
        }
        Err(TransactionError::StakeWeightLimitExceeded { weight, max_weight }) => {
            same!(max_weight, max, "limit");
            ensure!(weight > max, "refused weight {weight} under the limit {max}");
            same!(marks(&w.own), before, "marks after a refusal");
            c.outcome("refused: weight");
        }
        Err(e) => {
            same!(marks(&w.own), before, "marks after a refusal");
            let need = match (f, rel, &e) {
                (Fee::Absolute(a), ..) => out.value + a.as_nanowits(),
                (_, Some(p), TransactionError::NoMoney { transaction_value, .. }) => {
                    ensure!((1..=4).any(|n| out.value + (p * weight(n) as f64) as u64 == *transaction_value), "amount {transaction_value} needed");
                    *transaction_value
                }
                (_, p, _) => out.value + (p.unwrap() * weight(1) as f64) as u64,
            };
            no_money(&e, need, avail, total)?;
            c.outcome("refused: money");
        }
    }
    c.state(&format!("{:?}", w.coins));
    Ok(())
}

fn collateral(c: &mut Ch, thorough: bool) -> Result<(), String> {
    const W: u64 = 1_000_000_000;
    let mut w = wallet(c, if thorough { 4 } else { 3 }, &[W, 3 * W, 100 * W]);
    let coll = c.of(&[0, 1, W, 3 * W, 4 * W, 100 * W]);
    let limit = c.of(&[0u32, 1, 2]);
    let before = marks(&w.own);
    let s = UtxoSelectionStrategy::SmallFirst { from: None };
    c.op(|| format!("coins {:?}, collateral {coll}, block limit {limit}", w.coins.iter().map(|x| (x.value, x.usable, x.block)).collect::<Vec<_>>()));
    let (avail, total) = offer(&w, &s, Some(limit));
    let can = check_commit_collateral(Wit::from_nanowits(coll), &w.own, pkh(0), &w.all, NOW, limit);
    same!(can, coll > 0 && avail >= coll && offer(&w, &s, None).0 >= 100 * W, "can commit");
    same!(marks(&w.own), before, "marks after asking");
    match build_commit_collateral(Wit::from_nanowits(coll), &mut w.own, pkh(0), &w.all, NOW, TIMEOUT, limit) {
        Ok((ins, outs)) => {
            ensure!(outs.len() <= 1, "more than one change output");
            verify(&w, &before, &ins, outs.first(), 0, coll, &s, Some(limit), false)?;
            c.outcome("built");
        }
        Err(e) => {
            same!(marks(&w.own), before, "marks after a refusal");
            no_money(&e, coll, avail, total)?;
            c.outcome("refused");
        }
    }
    c.state(&format!("{:?}", w.coins));
    Ok(())
}

/// What a validator adds up.
fn sums(c: &mut Ch) -> Result<(), String> {
    let ec = EpochConstants { checkpoint_zero_timestamp: 0, checkpoints_period: 10, ..Default::default() };
    let vals = c.of(&[[1u64, 2, 3], [u64::MAX, 1, 0], [u64::MAX - 1, 1, 1], [5, 0, 7]]);
    let locks = c.of(&[[0u64, 0, 0], [99, 100, 101], [100, 101, 100], [0, i64::MAX as u64, i64::MAX as u64 + 1]]);
    let mut p = UnspentOutputsPool::default();
    let spent = c.flag();
    p.insert(ptr(0, 0), vto(0, vals[0], locks[0]), 0);
    p.insert(ptr(0, 1), vto(0, vals[1], locks[1]), 0);
    let mut d = UtxoDiff::new(&p, 3);
    d.insert_utxo(ptr(1, 0), vto(1, vals[2], locks[2]), None);
    if spent {
        d.remove_utxo(ptr(0, 1));
    }
    let menu = [ptr(0, 0), ptr(0, 1), ptr(1, 0), ptr(2, 0)];
    let ins = c.seq(&menu, 4);
    let mut left: BTreeMap<OutputPointer, (u64, u64)> = [(ptr(0, 0), 0), (ptr(0, 1), 1), (ptr(1, 0), 2)].into_iter().map(|(k, i)| (k, (vals[i], locks[i]))).collect();
    if spent {
        left.remove(&ptr(0, 1));
    }
    let mut exp = Some(0u64);
    for k in &ins {
        exp = exp.and_then(|s| left.remove(k).filter(|v| v.1 <= 100).and_then(|v| s.checked_add(v.0)));
    }
    let inputs: Vec<Input> = ins.iter().map(|k| Input::new(*k)).collect();
    c.op(|| format!("sum of {ins:?} with values {vals:?} locks {locks:?} spent {spent}"));
    same!(transaction_inputs_sum(&inputs, &d, 10, ec).ok(), exp, "sum of the inputs");
    let outs: Vec<ValueTransferOutput> = ins.iter().map(|k| vto(0, if *k == ptr(2, 0) { 9 } else { p.get(k).map_or(vals[2], |x| x.value) }, 0)).collect();
    let exp = outs.iter().try_fold(0u64, |s, o| s.checked_add(o.value));
    same!(transaction_outputs_sum(&outs).ok(), exp, "sum of the outputs");
    c.state(&(ins.len(), vals, locks, spent));
    Ok(())
}

pub fn build(run: &mut Run) {
    let t = run.thorough();
    explore(run, "value transfers", move |c| vtt(c, t));
    explore(run, "data requests", move |c| drt(c, t));
    explore(run, "stakes", move |c| stake(c, t));
    explore(run, "collaterals", move |c| collateral(c, t));
    explore(run, "sums of inputs and outputs", sums);
}
