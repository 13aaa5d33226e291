//! Commitments and reveals: who may take part in a data request, with which collateral, and how often.
use crate::blocks::mint;
use crate::blocks::*;
use crate::txs::*;
use crate::world::*;
use mc::{Run, ensure, explore, same};
use std::collections::BTreeSet;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::*;
use witnet_data_structures::proto::versioning::VersionedHashable;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_data_structures::wit::Wit;
use witnet_validations::validations::*;

/// The block under validation: the collateral has to be of block 50 or older.
const HERE: u32 = 1050;
const AGE: u32 = 1000;
/// From this epoch on, witnesses of old requests need 100 WIT.
const QUALIFIED: u32 = 2_245_000;

/// Validators: key, withdrawer, coins, since when. Powers at epoch 2500, from rank 1 on:
/// 16 (10^8), 5 (2·10^5), 11 (10^5), 15 and 14 (5·10^4), 12 (10^4), 13 (0).
const VALIDATORS: [(u8, u8, u64, u32); 7] = [(5, 1, 20_000, 2490), (11, 11, 20_000, 2495), (12, 12, 10_001, 2499), (13, 13, 20_000, 2500), (14, 14, 10_001, 2495), (15, 2, 10_001, 2495), (16, 16, 10_000_000, 2490)];
const NOW2: u32 = 2500;

fn validators(v: &[(u8, u8, u64, u32)]) -> StakesTracker {
    let mut s = StakesTracker::default();
    for (v, w, coins, since) in v {
        s.add_stake(stake_key(*v, *w), Wit::from_nanowits(coins * WIT), *since, true, Wit::from_nanowits(MIN_STAKE)).unwrap();
    }
    s
}
/// Power of each validator, the strongest first.
fn powers(v: &[(u8, u8, u64, u32)], epoch: u32) -> Vec<(u64, u8)> {
    let mut p: Vec<(u64, u8)> = v.iter().map(|(v, _, c, since)| (c * epoch.saturating_sub(*since) as u64, *v)).collect();
    p.sort();
    p.reverse();
    p
}
fn bits(x: u64) -> u64 {
    (64 - x.leading_zeros()) as u64
}
/// The target of a validator in a round of a request since 2.0, or nothing if it may not witness.
pub fn target2(v: &[(u8, u8, u64, u32)], key: u8, epoch: u32, witnesses: u16, round: u16, rounds: u16) -> Option<u32> {
    let p = powers(v, epoch);
    let own = p.iter().find(|x| x.1 == key)?.0;
    let rank = (1usize << round) * witnesses as usize;
    let threshold = p.get(rank - 1).map(|x| x.0).unwrap_or(0);
    if own == 0 || own <= threshold {
        return None;
    }
    let div = round as u64 * bits(threshold) + bits(p[0].0) * (rounds - round) as u64;
    if div == 0 {
        return Some(u32::MAX);
    }
    Some(((u64::MAX / div).saturating_mul(rounds as u64 * bits(own)) >> 32) as u32)
}
/// The target in a request before 2.0 of a witness without reputation.
fn target1(witnesses: u16, round: u16, difficulty: u32) -> u32 {
    let backup = witnesses as u64 * (1 << (round - 1)) / 2;
    ((u64::MAX / difficulty.max(1) as u64).saturating_mul(witnesses as u64 + backup) >> 32) as u32
}
fn first(h: Hash) -> u32 {
    let Hash::SHA256(h) = h;
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}

/// A request of the given epoch, waiting for commitments in the given round.
fn open(p: &mut DataRequestPool, tag: u8, dr: DataRequestOutput, epoch: u32, round: u16) -> Hash {
    let t = DRTransaction::new(DRTransactionBody::new(inputs(&[ptr(100 + tag, 0)]), dr, vec![]), vec![signed(1, hash(tag, 1))]);
    p.process_data_request(&t, epoch, Some(hash(0xbb, 1))).unwrap();
    for _ in 0..round {
        p.update_data_request_stages(Some(1000), Some(epoch));
    }
    t.versioned_hash(protocol(epoch))
}
/// Proof of eligibility of a key, and its hash.
fn claim(key: u8, m: VrfMessage) -> (DataRequestEligibilityClaim, u32) {
    let (proof, h) = vrf(|v| VrfProof::create(v, &secret(key), &m)).unwrap();
    (DataRequestEligibilityClaim { proof }, first(h))
}
fn commit(key: u8, dr: Hash, proof: DataRequestEligibilityClaim, ins: &[OutputPointer], outs: Vec<ValueTransferOutput>, commitment: Hash) -> CommitTransaction {
    let mut t = CommitTransaction::new(CommitTransactionBody::new(dr, commitment, proof, inputs(ins), outs, None), vec![]);
    t.signatures = vec![signed(key, t.hash())];
    t
}
/// A proof made for this very commitment.
fn message(chain: &Chain, dr: Hash, dr_epoch: u32, withdrawer: Option<u8>) -> VrfMessage {
    if version(dr_epoch) >= 2 { VrfMessage::data_request_v2(chain.vrf_input, dr, withdrawer.map(pkh)) } else { VrfMessage::data_request_v1(chain.vrf_input, dr) }
}
fn alone(chain: &Chain, tx: &Transaction, dr_epoch: u32) -> Result<u64, String> {
    let mut sigs = vec![];
    let fee = validate_new_transaction(
        tx,
        (&ReputationEngine::new(1), &chain.utxo, &chain.drs),
        chain.vrf_input,
        chain.epoch,
        epochs(),
        chain.number,
        &mut sigs,
        COLLATERAL,
        wit2().get_collateral_age(&chain.wips),
        VT_WEIGHT,
        DR_WEIGHT,
        chain.cc.minimum_difficulty,
        125,
        &chain.wips,
        chain.cc.superblock_period,
        &chain.stakes,
        protocol(dr_epoch),
        chain.cc.extra_rounds + 1,
        &wit2(),
    )
    .map_err(|e| e.to_string())?;
    vrf(|v| verify_signatures(sigs, v)).map_err(|e| e.to_string())?;
    Ok(fee)
}
fn at(epoch: u32, extra: u16) -> Chain {
    let mut c = Chain::new(&Ledger::new(), epoch);
    c.number = HERE;
    c.cc.extra_rounds = extra;
    c.drs = DataRequestPool::new(extra);
    c.stakes = validators(&VALIDATORS);
    c
}

fn who(run: &mut Run) {
    let inputs_n = run.pick(6, 40);
    explore(run, "who may commit", move |c| {
        // (epoch of the request, epoch of the commitment)
        let (born, epoch) = c.of(&[(NOW2 - 1, NOW2), (1900, NOW2), (500, 502)]);
        let v2 = version(born) >= 2;
        let extra = c.of(&[1, 3]);
        let round = 1 + c.pick(extra as usize + 1) as u16;
        let witnesses = c.of(&[1, 2, 3]);
        let key = if v2 { c.of(&[16, 5, 11, 15, 14, 12, 13, 20]) } else { c.of(&[5, 20]) };
        let mut chain = at(epoch, extra);
        chain.cc.minimum_difficulty = if v2 { 1 } else { c.of(&[0, 1, 5, 12]) };
        chain.vrf_input = CheckpointVRF { checkpoint: epoch, hash_prev_vrf: hash(0x70, c.pick(inputs_n) as u8) };
        let l: Ledger = [(ptr(0, 0), (vto(key, COLLATERAL, 0), 3))].into();
        chain.utxo = pool(&l);
        let dr = open(&mut chain.drs, 0, request(witnesses, 20_000, 10, 51, 0), born, round);
        let withdrawer = VALIDATORS.iter().find(|v| v.0 == key).map(|v| v.1);
        let target = if v2 { target2(&VALIDATORS, key, epoch, witnesses, round, extra + 1) } else { Some(target1(witnesses, round, chain.cc.minimum_difficulty)) };
        // what the proof is made for
        let m = c.pick(7);
        let mut fine = true;
        let mut other = chain.clone();
        let msg = match m {
            0 => message(&chain, dr, born, withdrawer),
            1 => {
                fine = false;
                message(&chain, hash(0xd0, 0), born, withdrawer)
            }
            2 => {
                fine = false;
                other.vrf_input.checkpoint += 1;
                message(&other, dr, born, withdrawer)
            }
            3 => {
                fine = false;
                other.vrf_input.hash_prev_vrf = hash(0x99, 0);
                message(&other, dr, born, withdrawer)
            }
            // the message of the other version
            4 => {
                fine = false;
                message(&chain, dr, if v2 { 500 } else { NOW2 }, withdrawer)
            }
            5 => {
                fine = v2 && withdrawer == Some(key);
                VrfMessage::data_request_v2(chain.vrf_input, dr, Some(pkh(key)))
            }
            _ => {
                fine = false;
                VrfMessage::block_mining(chain.vrf_input)
            }
        };
        let (proof, h) = claim(key, msg);
        let ins = if v2 { vec![] } else { vec![ptr(0, 0)] };
        let mut t = commit(key, dr, proof, &ins, vec![], hash(1, 1));
        // who signs
        let s = if m == 0 { c.pick(8) } else { 0 };
        fine &= s == 0;
        let id = t.hash();
        match s {
            0 => {}
            1 => t.signatures = vec![signed(17, id)],
            2 => t.signatures.clear(),
            3 => t.signatures.push(signed(key, id)),
            4 => t.signatures = vec![signed(key, hash(1, 1))],
            5 => t.signatures[0].signature = Signature::default(),
            6 => {
                t.signatures[0] = signed(17, id);
                t.signatures[0].public_key = public(key);
            }
            _ => {
                // another key claims the proof as its own
                let body = CommitTransactionBody::new(dr, hash(1, 1), claim(17, message(&chain, dr, born, withdrawer)).0, inputs(&ins), vec![], None);
                t = CommitTransaction::new(body.clone(), vec![signed(key, body.hash())]);
            }
        }
        let want = fine && target.is_some_and(|t| h <= t);
        let what = format!("commitment of key {key} to a request of epoch {born} with {witnesses} witnesses at epoch {epoch}, round {round} of {}, difficulty {}, proof {h:#x} kind {m} against {target:x?}, signatures kind {s}", extra + 1, chain.cc.minimum_difficulty);
        judge(c, "commitment", alone(&chain, &Transaction::Commit(t.clone()), born), want.then_some(10), &what)?;
        if witnesses == 1 && (m == 0 || want) {
            let b = chain.block(BlockTransactions { mint: mint(epoch, 10), commit_txns: vec![t], ..Default::default() });
            same!(chain.clone().validate(&b).is_ok(), want, "block with the {what}");
        }
        Ok(())
    });
}

/// Outputs of key 5: old, of the last block old enough, too young, spendable from now on, locked; and of key 2.
fn purse(epoch: u32, number: u32) -> Ledger {
    let now = time(epoch) as u64;
    let limit = number.saturating_sub(AGE);
    [vto(5, 1500, 0), vto(5, 500, 0), vto(5, 1000, 0), vto(5, 400, now), vto(5, 1000, now + 1), vto(2, 1000, 0), vto(5, u64::MAX - 900, 0), vto(5, 7, u64::MAX)]
        .into_iter()
        .enumerate()
        .map(|(i, o)| (ptr(i as u8, 0), (o, [0, limit, limit + 1, limit.saturating_sub(1), 0, 0, 0, 0][i])))
        .collect()
}
fn collateral(run: &mut Run) {
    let n = run.pick(2, 3);
    explore(run, "collateral", move |c| {
        let (born, epoch, number) = c.of(&[(NOW2 - 1, NOW2, HERE), (1900, NOW2, HERE), (500, 502, HERE), (500, 502, 30), (1999, 2000, AGE)]);
        let v2 = version(born) >= 2;
        let mut chain = at(epoch, 1);
        chain.number = number;
        let now = time(epoch) as u64;
        let l = purse(epoch, number);
        chain.utxo = pool(&l);
        // the stake of the validator
        let (locked, staked) = c.of(if v2 { &[(0, 10_000), (10_000 * WIT, 20_000), (10_000 * WIT + 1, 20_000), (0, 20_000), (COLLATERAL, 10_000), (u64::MAX, 20_000)] } else { &[(0, 20_000), (COLLATERAL, 20_000), (1100, 20_000)] });
        chain.stakes = validators(&[(5, 1, staked, 2490)]);
        let required = if locked == 0 { COLLATERAL } else { locked };
        let mut dr = request(1, 20_000, 10, 51, locked);
        dr.data_request.time_lock = if v2 { 0 } else { c.of(&[0, now, now + 1]) };
        let names: &[&str] = if c.flag() { &WIPS } else { &WIPS[1..] };
        chain.wips = wips(epoch, names);
        let late = !names.contains(&"WIP0008") && dr.data_request.time_lock > now;
        let dr = open(&mut chain.drs, 0, dr, born, 1);
        let k = c.pick(n + 1);
        let mut ids = vec![];
        for _ in 0..k {
            ids.push(c.pick(l.len() + 1) as u8);
        }
        let ins: Vec<_> = ids.iter().map(|i| ptr(*i, 0)).collect();
        let sum: u128 = ins.iter().filter_map(|i| l.get(i)).map(|o| o.0.value as u128).sum();
        let change = sum.saturating_sub(required as u128) as u64;
        let outs = match c.pick(9) {
            0 => vec![],
            1 => vec![vto(5, change, 0)],
            2 => vec![vto(5, change.saturating_sub(1), 0)],
            3 => vec![vto(5, change.saturating_add(1), 0)],
            4 => vec![vto(2, change, 0)],
            5 => vec![vto(5, change.saturating_sub(1), 0), vto(5, 1, 0)],
            6 => vec![vto(5, 0, 0)],
            7 => vec![vto(5, sum as u64, 0)],
            _ => vec![vto(5, change, now + 5)],
        };
        let given: u128 = outs.iter().map(|o| o.value as u128).sum();
        let limit = number.saturating_sub(AGE);
        let inputs_fine = ins.iter().enumerate().all(|(i, k)| {
            let Some((o, b)) = l.get(k) else { return false };
            !ins[..i].contains(k) && o.pkh == pkh(5) && o.time_lock <= now && *b <= limit
        }) && sum <= u64::MAX as u128;
        let outputs_fine = outs.len() <= 1 && outs.iter().all(|o| o.value > 0 && o.pkh == pkh(5)) && given <= sum;
        let spent = sum.saturating_sub(given);
        let amount = if v2 { staked as u128 * WIT as u128 >= MIN_STAKE as u128 + required as u128 && (spent == 0 || spent == required as u128) } else { spent == required as u128 };
        let want = !late && inputs_fine && outputs_fine && amount;
        let (proof, _) = claim(5, message(&chain, dr, born, Some(1)));
        let t = commit(5, dr, proof, &ins, outs.clone(), hash(1, 1));
        let what = format!("commitment at epoch {epoch} and block {number} to a request of epoch {born} with collateral {locked}, from outputs {ids:?} leaving {:?}, with {staked} WIT staked, WIP-8 {}, {late}", outs.iter().map(|o| (o.pkh == pkh(5), o.value)).collect::<Vec<_>>(), names.len() == WIPS.len());
        judge(c, "collateral", alone(&chain, &Transaction::Commit(t.clone()), born), want.then_some(10), &what)?;
        // a request of before 2.0 which pays 100 WIT from the balance of an old witness: see "qualified"
        if want || k == 1 {
            let b = chain.block(BlockTransactions { mint: mint(epoch, 10), commit_txns: vec![t.clone()], ..Default::default() });
            match chain.validate(&b) {
                Ok(d) => {
                    ensure!(want, "block accepted with the {what}");
                    let mut u = chain.utxo.clone();
                    d.apply(&mut u);
                    let mut after = l.clone();
                    create_at(&mut after, t.versioned_hash(protocol(epoch)), &ins, &outs, epoch, number);
                    create_at(&mut after, b.txns.mint.versioned_hash(protocol(epoch)), &[], &b.txns.mint.outputs, epoch, number);
                    same!(contents(&u), after, "outputs after the {what}");
                }
                Err(e) => ensure!(!want, "block refused ({e}) with the {what}"),
            }
        }
        Ok(())
    });
    explore(run, "witnesses of old requests need a balance", move |c| {
        let epoch = c.of(&[QUALIFIED, QUALIFIED + 1]);
        let (born, v2) = c.of(&[(1999, false), (QUALIFIED - 1, true)]);
        let mut chain = at(epoch, 1);
        // outputs younger than two superblock periods do not count
        let young = HERE - 20;
        let values = c.of(&[[COLLATERAL, 100 * WIT - COLLATERAL], [COLLATERAL, 100 * WIT - COLLATERAL - 1], [100 * WIT, 0], [100 * WIT - 1, 0], [COLLATERAL, 200 * WIT]]);
        let (block, holder) = c.of(&[(young - 1, 5), (young, 5), (young + 1, 5), (0, 2)]);
        let mut l: Ledger = [(ptr(0, 0), (vto(5, values[0], 0), 3))].into();
        if values[1] > 0 {
            l.insert(ptr(1, 0), (vto(holder, values[1], u64::MAX), block));
        }
        chain.utxo = pool(&l);
        chain.stakes = validators(&[(5, 1, 20_000, epoch - 10)]);
        let dr = open(&mut chain.drs, 0, request(1, 20_000, 10, 51, 0), born, 1);
        let (proof, _) = claim(5, message(&chain, dr, born, Some(1)));
        let balance: u64 = l.values().filter(|(o, b)| o.pkh == pkh(5) && *b < young).map(|x| x.0.value).sum();
        let (ins, outs) = if v2 && c.flag() { (vec![], vec![]) } else { (vec![ptr(0, 0)], if values[0] > COLLATERAL { vec![vto(5, values[0] - COLLATERAL, 0)] } else { vec![] }) };
        let t = commit(5, dr, proof, &ins, outs, hash(1, 1));
        let want = v2 || epoch == QUALIFIED || balance >= 100 * WIT;
        let what = format!("commitment of a witness with {values:?} at epoch {epoch} to a request of epoch {born}, the latter of key {holder} in block {block}");
        judge(c, "qualified", alone(&chain, &Transaction::Commit(t), born), want.then_some(10), &what)
    });
}

/// Requests in every stage.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stage {
    Unknown,
    Commit,
    Reveal,
    Tally,
    /// Settled for lack of witnesses in another candidate block.
    Leftover,
}
const STAGES: [Stage; 5] = [Stage::Commit, Stage::Unknown, Stage::Reveal, Stage::Tally, Stage::Leftover];

/// A chain with two requests, in the stages given, of 2 and 1 witnesses.
fn two(epoch: u32, born: u32, stages: [Stage; 2]) -> (Chain, [Hash; 2]) {
    let mut chain = at(epoch, 1);
    let all: Vec<_> = (11..19).map(|k| (k, k, 20_000, epoch.saturating_sub(if k % 2 == 1 && k < 17 { 25 - k as u32 } else { 5 }))).chain([(20, 20, 20_000, epoch - 1)]).collect();
    chain.stakes = validators(&all);
    let l: Ledger = (11..19).map(|k| (ptr(k, 0), (vto(k, COLLATERAL, 0), 3))).collect();
    chain.utxo = pool(&l);
    let mut ids = [Hash::default(); 2];
    for (i, s) in stages.into_iter().enumerate() {
        let dr = request(2 - i as u16, 20_000, 10 + i as u64, 51, 0);
        let tx = |tag: u8, dr: DataRequestOutput| {
            let mut t = DRTransaction::new(DRTransactionBody::new(inputs(&[ptr(100 + tag, 0)]), dr, vec![]), vec![]);
            let h = t.versioned_hash(protocol(born));
            t.signatures = sign(&[1], h);
            t
        };
        if s == Stage::Leftover {
            // another candidate block of this epoch with a request of too many witnesses
            let dr = request(3, 20_000, 10 + i as u64, 51, 0);
            let l: Ledger = [(ptr(100 + i as u8, 0), (vto(1, 70_000, 0), 3))].into();
            let mut past = chain.clone();
            past.utxo = pool(&l);
            let t = tx(i as u8, dr.clone());
            let id = t.versioned_hash(protocol(epoch));
            let tally = settle(id, &dr, epoch);
            let b = past.block(BlockTransactions { mint: mint(epoch, 70_000), data_request_txns: vec![t], tally_txns: vec![tally], ..Default::default() });
            past.validate(&b).unwrap();
            chain.drs = past.drs;
            ids[i] = id;
            continue;
        }
        let t = tx(i as u8, dr);
        ids[i] = t.versioned_hash(protocol(born));
        if s == Stage::Unknown {
            continue;
        }
        chain.drs.process_data_request(&t, born, Some(hash(0xbb, 1))).unwrap();
    }
    let rounds = stages.iter().map(|s| match s {
        Stage::Commit | Stage::Leftover | Stage::Unknown => 1,
        Stage::Reveal => 2,
        Stage::Tally => 4,
    });
    for (i, n) in rounds.enumerate() {
        // one witness is chosen from four validators in the second round
        let n = if stages[i] == Stage::Commit { 1 + i } else { n };
        // one request at a time
        let mut only = DataRequestPool::new(1);
        if stages[i] == Stage::Unknown || stages[i] == Stage::Leftover {
            continue;
        }
        std::mem::swap(&mut only, &mut chain.drs);
        let state = only.data_request_state(&ids[i]).unwrap().clone();
        let mut lone = DataRequestPool::new(1);
        let dr = state.data_request.clone();
        let t = DRTransaction::new(DRTransactionBody::new(inputs(&[ptr(100 + i as u8, 0)]), dr, vec![]), vec![signed(1, hash(9, 9))]);
        lone.process_data_request(&t, born, Some(hash(0xbb, 1))).unwrap();
        for k in 0..n {
            lone.update_data_request_stages(Some(1000), Some(epoch));
            if k == 0 && stages[i] == Stage::Reveal {
                for w in [11, 13] {
                    let (_, c) = revealing(w, ids[i], 1);
                    lone.process_commit(&c, epoch, &hash(0xbb, 2)).unwrap();
                }
            }
        }
        *only.data_request_state_mutable(&ids[i]).unwrap() = lone.data_request_state(&ids[i]).unwrap().clone();
        chain.drs = only;
    }
    (chain, ids)
}
/// The tally of a request nobody may witness.
pub fn settle(id: Hash, dr: &DataRequestOutput, epoch: u32) -> TallyTransaction {
    let w = wips(epoch, &WIPS);
    let none = RADTally { filters: vec![], reducer: witnet_rad::reducers::RadonReducers::Mode as u32 };
    let report = run_tally(vec![], &none, 0.0, 0, &w, true);
    create_tally(id, dr, pkh(1), &report, vec![], std::collections::HashSet::<PublicKeyHash>::new(), COLLATERAL, tally_bytes_on_encode_error(), &w, protocol(epoch))
}
/// A reveal and the commitment to it.
fn revealing(w: u8, dr: Hash, value: u8) -> (RevealTransaction, CommitTransaction) {
    let body = RevealTransactionBody::new(dr, vec![value], pkh(w));
    let h = body.hash();
    let s = signed(w, h);
    let c = CommitTransaction::new(CommitTransactionBody::new(dr, s.signature.hash(), DataRequestEligibilityClaim::default(), vec![], vec![], None), vec![signed(w, hash(3, 3))]);
    (RevealTransaction::new(body, vec![s]), c)
}

fn several(run: &mut Run) {
    let n = run.pick(3, 4);
    explore(run, "commitments in a block", move |c| {
        let (born, epoch) = c.of(&[(NOW2 - 1, NOW2), (1900, NOW2), (500, 502)]);
        let v2 = version(born) >= 2;
        let second = c.of(&STAGES);
        if second == Stage::Leftover && version(epoch) < 2 {
            return Ok(());
        }
        let stages = [Stage::Commit, second];
        let (mut chain, ids) = two(epoch, born, stages);
        let k = c.pick(n + 1);
        let mut list = vec![];
        for _ in 0..k {
            // keys 11, 13 and 15 are eligible
            list.push((c.pick(2), c.of(&[11, 13, 15])));
        }
        let mut l = contents(&chain.utxo);
        let (mut txs, mut fees, mut fine) = (vec![], 0, true);
        for (r, w) in &list {
            let leftover = stages[*r] == Stage::Leftover;
            let (proof, _) = claim(*w, message(&chain, ids[*r], if leftover { epoch } else { born }, Some(*w)));
            let ins = if v2 || leftover { vec![] } else { vec![ptr(*w, 0)] };
            let t = commit(*w, ids[*r], proof, &ins, vec![], hash(1, *w));
            fine &= ins.iter().all(|i| l.remove(i).is_some()) && stages[*r] == Stage::Commit;
            fees += 10 + *r as u64;
            txs.push(t);
        }
        for (r, need) in [(0, 2), (1, 1)] {
            let from: Vec<_> = list.iter().filter(|x| x.0 == r).map(|x| x.1).collect();
            let set: BTreeSet<_> = from.iter().collect();
            fine &= set.len() == from.len() && (from.is_empty() || from.len() == need);
        }
        // a request which waits for its tally has to get it
        let ready = second == Stage::Tally;
        let what = format!("block at epoch {epoch} with commitments {list:?} (request, key) to requests of epoch {born} with 2 witnesses, and with 1 witness in stage {second:?}");
        c.op(|| what.clone());
        c.state(&what);
        let want = fine && !ready;
        let m = mint(epoch, fees);
        create_at(&mut l, m.versioned_hash(protocol(epoch)), &[], &m.outputs, epoch, HERE);
        let b = chain.block(BlockTransactions { mint: m, commit_txns: txs, ..Default::default() });
        c.outcome(if want { "accepted" } else { "refused" });
        let before = chain.drs.clone();
        let got = chain.validate(&b);
        ensure!(before == chain.drs, "validation changed the requests: {what}");
        match got {
            Ok(_) if !want => Err(format!("accepted: {what}")),
            Err(e) if want => Err(format!("refused ({e}): {what}")),
            Ok(d) => {
                let mut u = chain.utxo.clone();
                d.apply(&mut u);
                same!(contents(&u), l, "outputs after {what}");
                Ok(())
            }
            Err(_) => Ok(()),
        }
    });
}

fn reveals(run: &mut Run) {
    let n = run.pick(2, 3);
    explore(run, "reveals", move |c| {
        let (born, epoch) = c.of(&[(NOW2 - 1, NOW2), (1900, NOW2), (500, 502)]);
        let stages = [Stage::Reveal, c.of(&STAGES[..4])];
        let (mut chain, ids) = two(epoch, born, stages);
        // a reveal of an earlier block
        let early = c.flag();
        if early {
            chain.drs.process_reveal(&revealing(11, ids[0], 1).0, epoch, &hash(0xbb, 3)).unwrap();
        }
        let k = 1 + c.pick(n);
        let (mut txs, mut fees, mut fine, mut seen) = (vec![], 0, true, BTreeSet::new());
        let mut what = format!("reveals at epoch {epoch} for requests of epoch {born} in stages {stages:?}, revealed before: {early}:");
        for i in 0..k {
            let (r, w, m) = if i == 0 { (c.pick(2), c.of(&[11, 13, 15]), c.pick(11)) } else { (c.pick(2), c.of(&[11, 13, 15]), 0) };
            let (mut t, _) = revealing(w, ids[r], 1);
            let mut ok = stages[r] == Stage::Reveal && [11, 13].contains(&w) && !(early && r == 0 && w == 11) && m == 0;
            let h = t.body.hash();
            match m {
                0 => {}
                // another value
                1 => t = revealing(w, ids[r], 2).0,
                2 => t.body = RevealTransactionBody::new(ids[r], vec![2], pkh(w)),
                // in the name of another
                3 => t.body = RevealTransactionBody::new(ids[r], vec![1], pkh(if w == 11 { 13 } else { 11 })),
                4 => t.signatures = vec![signed(17, h)],
                5 => t.signatures.clear(),
                6 => t.signatures.push(signed(w, h)),
                7 => t.signatures[0].public_key = public(13),
                8 => t.signatures[0].signature = Signature::default(),
                9 => {
                    t = revealing(w, hash(0xd0, 0), 1).0;
                }
                _ => {
                    // the committed signature with another value
                    let s = t.signatures.clone();
                    t = revealing(w, ids[r], 2).0;
                    t.signatures = s;
                }
            }
            if m == 7 && w == 13 {
                ok = stages[r] == Stage::Reveal;
            }
            if k == 1 {
                let mut id = what.clone();
                id.push_str(&format!(" request {r}, key {w}, kind {m}"));
                judge(c, "reveal", alone(&chain, &Transaction::Reveal(t.clone()), born), ok.then_some(10 + r as u64), &id)?;
            }
            fine &= ok && seen.insert((r, w));
            fees += 10 + r as u64;
            what.push_str(&format!(" request {r}, key {w}, kind {m};"));
            txs.push(t);
        }
        c.op(|| what.clone());
        c.state(&what);
        let want = fine && stages[1] != Stage::Tally;
        c.outcome(if want { "accepted" } else { "refused" });
        let b = chain.block(BlockTransactions { mint: mint(epoch, fees), reveal_txns: txs, ..Default::default() });
        let before = chain.drs.clone();
        let got = chain.validate(&b);
        ensure!(before == chain.drs, "validation changed the requests: {what}");
        match got {
            Ok(_) if !want => Err(format!("block accepted with {what}")),
            Err(e) if want => Err(format!("block refused ({e}) with {what}")),
            _ => Ok(()),
        }
    });
}

pub fn commits(run: &mut Run) {
    setup();
    run.assume("witnesses have no reputation in requests of before 2.0; thresholds with reputation are decided by another check");
    who(run);
    collateral(run);
    several(run);
    reveals(run);
}
