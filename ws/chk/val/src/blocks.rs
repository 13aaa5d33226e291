//! Blocks as a whole: the ledger they lead to, what they may mint, and that a refused block leaves no trace.
use crate::txs::*;
use crate::world::*;
use mc::{Ch, Run, ensure, explore, same};
use std::collections::HashSet;
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::radon_report::RadonReport;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::{Diff, UnspentOutputsPool};
use witnet_rad::reducers::RadonReducers;
use witnet_validations::validations::*;

/// The number of the block under validation.
pub const NUMBER: u32 = 50;
pub const REWARD: u64 = 1000;
pub const HALVING: u32 = 1000;
pub const EXTRA: u16 = 1;

pub fn constants() -> ConsensusConstants {
    ConsensusConstants {
        checkpoint_zero_timestamp: ZERO,
        checkpoints_period: 45,
        bootstrap_hash: hash(0xb0, 0),
        genesis_hash: hash(0x9e, 0),
        max_vt_weight: VT_WEIGHT,
        max_dr_weight: DR_WEIGHT,
        activity_period: 40,
        reputation_expire_alpha_diff: 1000,
        reputation_issuance: 1,
        reputation_issuance_stop: 1 << 20,
        reputation_penalization_factor: 0.5,
        mining_backup_factor: 8,
        mining_replication_factor: 3,
        collateral_minimum: COLLATERAL,
        collateral_age: 10,
        superblock_period: 10,
        extra_rounds: EXTRA,
        minimum_difficulty: 1,
        epochs_with_minimum_difficulty: 0,
        bootstrapping_committee: vec![],
        superblock_signing_committee_size: 10,
        superblock_committee_decreasing_period: 1,
        superblock_committee_decreasing_step: 1,
        initial_block_reward: REWARD,
        halving_period: HALVING,
    }
}
/// The chain before the block.
#[derive(Clone)]
pub struct Chain {
    pub utxo: UnspentOutputsPool,
    pub drs: DataRequestPool,
    pub stakes: StakesTracker,
    pub epoch: u32,
    pub number: u32,
    pub wips: ActiveWips,
    pub cc: ConsensusConstants,
    pub vrf_input: CheckpointVRF,
}
impl Chain {
    pub fn new(l: &Ledger, epoch: u32) -> Self {
        Chain {
            utxo: pool(l),
            drs: DataRequestPool::new(EXTRA),
            stakes: four(),
            epoch,
            number: NUMBER,
            wips: wips(epoch, &WIPS),
            cc: constants(),
            vrf_input: CheckpointVRF { checkpoint: epoch, hash_prev_vrf: hash(0x77, 0) },
        }
    }
    /// What the block would change.
    pub fn validate(&mut self, b: &Block) -> Result<Diff, String> {
        let mut sigs = vec![];
        let d = validate_block_transactions(
            &self.utxo,
            &mut self.drs,
            b,
            self.vrf_input,
            &mut sigs,
            &ReputationEngine::new(1),
            epochs(),
            self.number,
            &self.cc,
            &wit2(),
            &self.wips,
            None,
            &self.stakes,
        )
        .map_err(|e| e.to_string())?;
        vrf(|v| verify_signatures(sigs, v)).map_err(|e| e.to_string())?;
        Ok(d)
    }
    pub fn block(&self, txns: BlockTransactions) -> Block {
        let beacon = CheckpointBeacon { checkpoint: self.epoch, hash_prev_block: hash(0xbb, 0) };
        let header = BlockHeader { beacon, merkle_roots: roots(&txns, self.epoch), ..Default::default() };
        Block::new(header, KeyedSignature::default(), txns)
    }
}
/// Four validators.
pub fn four() -> StakesTracker {
    let mut s = stakes();
    for v in 11..14 {
        s.add_stake(stake_key(v, v), witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE), 7, true, witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE)).unwrap();
    }
    s
}
fn root<T: VersionedHashable>(t: &[T], p: ProtocolVersion) -> Hash {
    hash_merkle_tree_root(&t.iter().map(|t| t.versioned_hash(p)).collect::<Vec<_>>())
}
/// The roots a header has to carry: those of stakes only since 1.8, of unstakes only since 2.0.
pub fn roots(t: &BlockTransactions, epoch: u32) -> BlockMerkleRoots {
    let p = protocol(epoch);
    BlockMerkleRoots {
        mint_hash: t.mint.versioned_hash(p),
        vt_hash_merkle_root: root(&t.value_transfer_txns, p),
        dr_hash_merkle_root: root(&t.data_request_txns, p),
        commit_hash_merkle_root: root(&t.commit_txns, p),
        reveal_hash_merkle_root: root(&t.reveal_txns, p),
        tally_hash_merkle_root: root(&t.tally_txns, p),
        stake_hash_merkle_root: if version(epoch) >= 1 { root(&t.stake_txns, p) } else { Hash::default() },
        unstake_hash_merkle_root: if version(epoch) >= 2 { root(&t.unstake_txns, p) } else { Hash::default() },
    }
}
/// The mint a miner may take: nothing since 2.0.
pub fn mint(epoch: u32, fees: u64) -> MintTransaction {
    if version(epoch) >= 2 {
        return MintTransaction::new(epoch, vec![]);
    }
    MintTransaction::new(epoch, vec![vto(8, fees + (REWARD >> (epoch / HALVING)), 0)])
}
pub fn sign(owners: &[u8], h: Hash) -> Vec<KeyedSignature> {
    owners.iter().map(|o| signed(*o, h)).collect()
}
pub fn contents(u: &UnspentOutputsPool) -> Ledger {
    u.iter().collect()
}
/// The same outputs, whenever they count from.
pub fn undated(l: &Ledger) -> Vec<(OutputPointer, ValueTransferOutput)> {
    l.iter().map(|(k, v)| (*k, v.0.clone())).collect()
}

/// The specification: applies a transaction to the ledger, and says its fee, or refuses it.
/// With `None` as fee, whatever is put in may come out.
pub fn apply(l: &mut Ledger, id: Hash, ins: &[OutputPointer], outs: &[ValueTransferOutput], burnt: u64, epoch: u32) -> Option<u64> {
    let have = spend(l, ins, epoch)?;
    let mut values: Vec<u64> = outs.iter().map(|o| o.value).collect();
    values.push(burnt);
    let left = fee(have, &values)?;
    create(l, id, ins, outs, epoch);
    Some(left)
}
/// The outputs of the transaction instead of its inputs.
pub fn create(l: &mut Ledger, id: Hash, ins: &[OutputPointer], outs: &[ValueTransferOutput], epoch: u32) {
    create_at(l, id, ins, outs, epoch, NUMBER)
}
pub fn create_at(l: &mut Ledger, id: Hash, ins: &[OutputPointer], outs: &[ValueTransferOutput], epoch: u32, number: u32) {
    let spent: Vec<_> = ins.iter().map(|i| l.remove(i).unwrap()).collect();
    for (i, o) in outs.iter().enumerate() {
        // coins that stay with their owner keep their age
        let kept = !spent.is_empty() && spent.iter().all(|(s, _)| s.pkh == o.pkh);
        let number = if kept { spent.iter().map(|s| s.1).max().unwrap() } else { number };
        let mut o = o.clone();
        if version(epoch) >= 2 && o.time_lock < ZERO as u64 {
            o.time_lock += time(epoch) as u64;
        }
        l.insert(OutputPointer { transaction_id: id, output_index: i as u32 }, (o, number));
    }
}

/// Compares the outputs after an accepted block with those of the specification.
/// `chained`: some transaction spends an output created in the same block.
pub fn compare(chain: &Chain, d: &Diff, want: &Ledger, chained: bool, what: &str) -> Result<(), String> {
    let mut u = chain.utxo.clone();
    d.clone().apply(&mut u);
    let got = contents(&u);
    same!(undated(&got), undated(want), "outputs after {what}");
    if chained && got != *want {
        return Err(format!("the age of an output spent in the block that created it is lost: {what}"));
    }
    let dates = |l: &Ledger| l.iter().map(|(k, v)| (*k, v.1)).collect::<Vec<_>>();
    same!(dates(&got), dates(want), "blocks from which the outputs count, after {what}");
    Ok(())
}

fn p(id: Hash, i: u32) -> OutputPointer {
    OutputPointer { transaction_id: id, output_index: i }
}
/// Outputs in block 3, 5, 2 and 4: 100, 50 of key 1, 70 of key 2, and 40 of key 1 which is locked.
fn start(epoch: u32) -> Ledger {
    let now = time(epoch) as u64;
    [(vto(1, 100, 0), 3), (vto(1, 50, now), 5), (vto(2, 70, 0), 2), (vto(1, 40, now + 1), 4)].into_iter().enumerate().map(|(i, o)| (ptr(i as u8, 0), o)).collect()
}
/// Transfers among them: (inputs with owners, outputs).
fn universe(epoch: u32) -> Vec<VTTransaction> {
    let now = time(epoch) as u64;
    let mut all: Vec<VTTransaction> = vec![];
    let mut add = |ins: Vec<(OutputPointer, u8)>, outs: Vec<ValueTransferOutput>| {
        let ptrs: Vec<_> = ins.iter().map(|i| i.0).collect();
        let owners: Vec<_> = ins.iter().map(|i| i.1).collect();
        let mut t = VTTransaction::new(VTTransactionBody::new(inputs(&ptrs), outs), vec![]);
        let h = t.versioned_hash(protocol(epoch));
        t.signatures = sign(&owners, h);
        all.push(t);
        h
    };
    let (a, b, c, locked) = ((ptr(0, 0), 1), (ptr(1, 0), 1), (ptr(2, 0), 2), (ptr(3, 0), 1));
    let t0 = add(vec![a], vec![vto(1, 60, 0), vto(2, 30, 0)]);
    add(vec![a], vec![vto(2, 100, 0)]);
    add(vec![(p(t0, 0), 1)], vec![vto(3, 60, 0)]);
    add(vec![b, c], vec![vto(1, 110, 0)]);
    add(vec![a, b], vec![vto(1, 149, 0)]);
    add(vec![(p(t0, 0), 1), b], vec![vto(1, 90, 0), vto(1, 1, now)]);
    let t6 = add(vec![c], vec![vto(2, 5, 7), vto(2, 6, ZERO as u64 - 1), vto(2, 7, ZERO as u64), vto(2, 8, now + 1)]);
    add(vec![(p(t6, 0), 2)], vec![vto(2, 5, 0)]);
    add(vec![(p(t6, 2), 2)], vec![vto(2, 7, 0)]);
    add(vec![locked], vec![vto(1, 40, 0)]);
    add(vec![(p(t0, 1), 2), c], vec![vto(2, 100, 0)]);
    add(vec![(p(t0, 0), 1)], vec![vto(1, 60, 0)]);
    all
}
/// Every mint nearby the right one.
fn mints(c: &mut Ch, epoch: u32, fees: u64) -> (MintTransaction, bool) {
    let right = fees + (REWARD >> (epoch / HALVING));
    let m = |o: Vec<u64>| MintTransaction::new(epoch, o.into_iter().map(|v| vto(8, v, 0)).collect());
    let v2 = version(epoch) >= 2;
    match c.pick(9) {
        0 => (mint(epoch, fees), true),
        1 => (m(vec![right]), !v2),
        2 => (m(vec![right - 1]), false),
        3 => (m(vec![right + 1]), false),
        4 => (m(vec![right - 1, 1]), !v2),
        5 => (m(vec![right, 0]), false),
        6 => (m(vec![right - 2, 1, 1]), false),
        7 => (MintTransaction::new(epoch + 1, mint(epoch, fees).outputs), false),
        _ => (m(vec![u64::MAX, right + 1]), false),
    }
}

fn transfers(run: &mut Run) {
    let n = run.pick(4, 5);
    explore(run, "sequences of value transfers", move |c| {
        let epoch = c.of(&EPOCHS);
        let all = universe(epoch);
        let k = 1 + c.pick(n);
        let mut l = start(epoch);
        let mut chain = Chain::new(&l, epoch);
        let (mut txs, mut fees, mut fine, mut chained, mut names) = (vec![], 0, true, false, vec![]);
        for _ in 0..k {
            // what comes after a refused transaction does not matter
            if !fine {
                break;
            }
            let i = c.pick(all.len());
            names.push(i);
            let t = &all[i];
            let h = t.versioned_hash(protocol(epoch));
            let ins: Vec<_> = t.body.inputs.iter().map(|i| *i.output_pointer()).collect();
            chained |= ins.iter().any(|i| txs.iter().any(|t: &VTTransaction| t.versioned_hash(protocol(epoch)) == i.transaction_id));
            match apply(&mut l, h, &ins, &t.body.outputs, 0, epoch) {
                Some(f) => fees += f,
                None => fine = false,
            }
            txs.push(t.clone());
        }
        let weight: u32 = txs.iter().map(|t| t.weight()).sum();
        let light = !fine || c.flag();
        chain.cc.max_vt_weight = weight - !light as u32;
        let (m, right) = if fine && light { mints(c, epoch, fees) } else { (mint(epoch, fees), true) };
        let want = fine && light && right;
        create(&mut l, m.versioned_hash(protocol(epoch)), &[], &m.outputs, epoch);
        let what = format!("transfers {names:?} of total weight {weight} and limit {}, mint {:?} of epoch {}, at epoch {epoch}", chain.cc.max_vt_weight, m.outputs.iter().map(|o| o.value).collect::<Vec<_>>(), m.epoch);
        c.op(|| what.clone());
        c.state(&names);
        let b = chain.block(BlockTransactions { mint: m, value_transfer_txns: txs, ..Default::default() });
        let before = chain.clone();
        c.outcome(if want { "accepted" } else { "refused" });
        c.ops(k as u64);
        let got = chain.validate(&b);
        ensure!(chain.drs == before.drs && contents(&chain.utxo) == contents(&before.utxo), "validation changed the chain: {what}");
        match got {
            Err(e) if want => Err(format!("block refused ({e}): {what}")),
            Ok(_) if !want => Err(format!("block accepted: {what}")),
            Ok(d) => compare(&chain, &d, &l, chained, &what),
            Err(_) => Ok(()),
        }
    });
}

/// A request with too many witnesses, settled in its own block.
fn hopeless(epoch: u32) -> (DRTransaction, TallyTransaction) {
    let dr = request(3, 200, 10, 51, 0);
    let mut t = DRTransaction::new(DRTransactionBody::new(inputs(&[ptr(20, 0)]), dr.clone(), vec![]), vec![]);
    let h = t.versioned_hash(protocol(epoch));
    t.signatures = sign(&[1], h);
    let w = wips(epoch, &WIPS);
    let none = RADTally { filters: vec![], reducer: RadonReducers::Mode as u32 };
    let report: RadonReport<_> = run_tally(vec![], &none, 0.0, 0, &w, true);
    let tally = create_tally(h, &dr, pkh(1), &report, vec![], HashSet::new(), COLLATERAL, tally_bytes_on_encode_error(), &w, protocol(epoch));
    (t, tally)
}

/// Everything a block can hold at once.
fn mixtures(run: &mut Run) {
    let deep = run.thorough();
    explore(run, "blocks with transactions of several kinds", move |c| {
        let epoch = c.of(&EPOCHS);
        let v = version(epoch);
        let pv = protocol(epoch);
        let mut l: Ledger = [(ptr(0, 0), (vto(1, 100, 0), 3)), (ptr(1, 0), (vto(1, 1000, 0), 3)), (ptr(2, 0), (vto(2, MIN_STAKE + 500, 0), 3)), (ptr(3, 0), (vto(2, MIN_STAKE, 0), 3)), (ptr(20, 0), (vto(1, 700, 0), 3))].into();
        let mut chain = Chain::new(&l, epoch);
        let mut t = BlockTransactions::default();
        let (mut fees, mut fine, mut chained) = (0u64, true, false);
        let mut names = vec![];
        // value transfer
        if c.flag() {
            let mut x = VTTransaction::new(VTTransactionBody::new(inputs(&[ptr(0, 0)]), vec![vto(2, 93, 0)]), vec![]);
            let h = x.versioned_hash(pv);
            x.signatures = sign(&[1], h);
            fees += apply(&mut l, h, &[ptr(0, 0)], &x.body.outputs, 0, epoch).unwrap();
            t.value_transfer_txns.push(x);
            names.push("transfer");
        }
        // data requests: from an own output, from that of the transfer, or twice the same
        let kind = c.pick(4);
        if kind > 0 {
            let from = if kind == 2 { p(t.value_transfer_txns.first().map(|x| x.versioned_hash(pv)).unwrap_or(hash(9, 9)), 0) } else { ptr(1, 0) };
            let dr = if kind == 2 { request(1, 20, 1, 51, 0) } else { request(1, 300, 10, 51, 0) };
            let change = if kind == 2 { vec![vto(2, 5, 0)] } else { vec![] };
            let mut x = DRTransaction::new(DRTransactionBody::new(inputs(&[from]), dr, change), vec![]);
            let h = x.versioned_hash(pv);
            x.signatures = sign(&[if kind == 2 { 2 } else { 1 }], h);
            let cost = if kind == 2 { 22 } else { 320 };
            for _ in 0..if kind == 3 { 2 } else { 1 } {
                match apply(&mut l, h, &[from], &x.body.outputs, cost, epoch) {
                    Some(f) => fees += f,
                    None => fine = false,
                }
                t.data_request_txns.push(x.clone());
            }
            chained |= kind == 2;
            names.push(["", "request", "request from the transfer", "request twice"][kind]);
        }
        // a request with too many witnesses for four validators (one in four at most), and its tally
        let hope = c.pick(4);
        if hope > 0 {
            let (x, tally) = hopeless(epoch);
            let h = x.versioned_hash(pv);
            fees += apply(&mut l, h, &[ptr(20, 0)], &[], 660, epoch).unwrap();
            t.data_request_txns.push(x);
            // before version 2 it is an ordinary request, which waits for commits
            let own = v >= 2;
            match hope {
                1 => {
                    fine &= own;
                    let id = tally.versioned_hash(pv);
                    create(&mut l, id, &[], &tally.outputs, epoch);
                    t.tally_txns.push(tally);
                }
                2 => fine &= !own,
                _ => {
                    fine = false;
                    t.tally_txns = vec![tally.clone(), tally];
                }
            }
            names.push(["", "request with too many witnesses and tally", "request with too many witnesses", "request with too many witnesses and two tallies"][hope]);
        }
        // stakes of key 2 on validators 6, 7, or twice on 6
        let stake = c.pick(if deep { 5 } else { 4 });
        for (i, from, validator, change) in [(0, 2, 6, Some(400)), (1, 3, if stake == 2 { 6 } else { 7 }, None)].into_iter().take(stake.min(2)) {
            let value = MIN_STAKE;
            let output = StakeOutput { value, key: stake_key(validator, 2), authorization: authorization(validator, 2) };
            let from = if stake == 4 && i == 1 { 2 } else { from };
            let outs: Vec<_> = change.map(|x| vto(2, x, 0)).into_iter().collect();
            let mut x = StakeTransaction::new(StakeTransactionBody::new(inputs(&[ptr(from, 0)]), output, outs.first().cloned()), vec![]);
            let h = x.versioned_hash(pv);
            x.signatures = sign(&[2], h);
            match apply(&mut l, h, &[ptr(from, 0)], &outs, value, epoch) {
                Some(f) => fees += f,
                None => fine = false,
            }
            t.stake_txns.push(x);
        }
        fine &= (stake == 0 || v >= 1) && stake != 2;
        names.push(["", "stake", "two stakes on one validator", "two stakes", "two stakes from one output"][stake]);
        // unstakes
        let unstake = c.pick(3);
        for i in 0..unstake {
            let x = crate::blocks::unstake(5, 1, 1000 + i as u64, 5, 7, pv);
            let h = x.versioned_hash(pv);
            create(&mut l, h, &[], std::slice::from_ref(&x.body.withdrawal), epoch);
            fees += 5;
            t.unstake_txns.push(x);
        }
        fine &= unstake == 0 || (v >= 2 && unstake == 1);
        names.push(["", "unstake", "two unstakes of one validator"][unstake]);
        t.mint = mint(epoch, fees);
        create(&mut l, t.mint.versioned_hash(pv), &[], &t.mint.outputs.clone(), epoch);
        let mut b = chain.block(t);
        // one root may be wrong
        let wrong = if fine { c.pick(9) } else { 0 };
        let r = &mut b.block_header.merkle_roots;
        let which = [&mut r.mint_hash, &mut r.vt_hash_merkle_root, &mut r.dr_hash_merkle_root, &mut r.commit_hash_merkle_root, &mut r.reveal_hash_merkle_root, &mut r.tally_hash_merkle_root, &mut r.stake_hash_merkle_root, &mut r.unstake_hash_merkle_root];
        if wrong > 0 {
            *which.into_iter().nth(wrong - 1).unwrap() = hash(0xee, 0);
        }
        let want = fine && wrong == 0;
        let what = format!("{names:?}, wrong root {wrong}, epoch {epoch}");
        c.op(|| what.clone());
        c.state(&(&names, epoch));
        c.outcome(if want { "accepted" } else { "refused" });
        let before = chain.clone();
        let got = chain.validate(&b);
        match got {
            Err(e) if want => Err(format!("block refused ({e}): {what}")),
            Ok(_) if !want => Err(format!("block accepted: {what}")),
            Ok(d) => {
                compare(&chain, &d, &l, chained, &what)?;
                // nothing but what this block settles itself may stay
                let (x, _) = hopeless(epoch);
                chain.drs.remove_data_request(&x.versioned_hash(pv));
                ensure!(chain.drs == before.drs, "requests changed by validating {what}");
                Ok(())
            }
            Err(_) => {
                ensure!(chain.drs == before.drs, "requests changed by a refused block: {what}");
                Ok(())
            }
        }
    });
}

/// Blocks which were validated before, and lost, must not matter.
fn leftovers(run: &mut Run) {
    let n = run.pick(4, 5);
    explore(run, "blocks after other candidates", move |c| {
        let epoch = c.of(&EPOCHS);
        let pv = protocol(epoch);
        let l: Ledger = [(ptr(0, 0), (vto(1, 100, 0), 3)), (ptr(1, 0), (vto(1, 1000, 0), 3)), (ptr(20, 0), (vto(1, 700, 0), 3))].into();
        let mut chain = Chain::new(&l, epoch);
        let (x, tally) = hopeless(epoch);
        let mut ordinary = DRTransaction::new(DRTransactionBody::new(inputs(&[ptr(1, 0)]), request(1, 300, 10, 51, 0), vec![]), vec![]);
        ordinary.signatures = sign(&[1], ordinary.versioned_hash(pv));
        let hope = |good: u8, chain: &Chain| {
            let mut t = BlockTransactions { mint: mint(chain.epoch, 40), data_request_txns: vec![x.clone()], ..Default::default() };
            match good {
                0 => t.tally_txns = vec![tally.clone()],
                1 => {}
                2 => t.tally_txns = vec![tally.clone(), tally.clone()],
                _ => {
                    t.tally_txns = vec![tally.clone()];
                    t.mint = MintTransaction::new(chain.epoch, vec![vto(8, 7, 0)]);
                }
            }
            chain.block(t)
        };
        let plain = |chain: &Chain, request: bool| {
            let mut t = BlockTransactions { mint: mint(chain.epoch, if request { 680 } else { 0 }), ..Default::default() };
            if request {
                t.data_request_txns = vec![ordinary.clone()];
            }
            chain.block(t)
        };
        // the limit is exact for the ordinary request
        chain.cc.max_dr_weight = ordinary.weight().max(x.weight());
        let fresh = chain.clone();
        // candidates seen, and blocks consolidated in between
        let mut names = vec![];
        for _ in 0..n {
            match c.pick(6) {
                5 => {
                    // a block without transactions is consolidated
                    chain.drs.update_data_request_stages(Some(chain.stakes.validator_count()), Some(chain.epoch));
                    chain.epoch += 1;
                    chain.number += 1;
                    names.push("consolidated");
                }
                4 => {
                    ensure!(chain.validate(&plain(&chain.clone(), true)).is_ok(), "candidate with an ordinary request refused after {names:?}");
                    names.push("ordinary candidate");
                }
                k => {
                    let b = hope(k as u8, &chain);
                    let ok = chain.validate(&b).is_ok();
                    same!(ok, if version(epoch) >= 2 { k == 0 } else { k == 1 }, "candidate {k} after {names:?} at epoch {epoch}");
                    names.push(["good candidate", "candidate without tally", "candidate with two tallies", "candidate with a wrong mint"][k]);
                }
            }
        }
        c.op(|| format!("{names:?} from epoch {epoch}"));
        c.state(&(epoch, &names));
        c.ops(names.len() as u64);
        let mut never = fresh;
        (never.epoch, never.number, never.vrf_input, never.wips) = (chain.epoch, chain.number, chain.vrf_input, chain.wips.clone());
        for b in [plain(&chain, false), plain(&chain, true), hope(0, &chain), hope(1, &chain), hope(2, &chain)] {
            let (mut a, mut z) = (chain.clone(), never.clone());
            let (got, want) = (a.validate(&b), z.validate(&b));
            same!(got.as_ref().err(), want.as_ref().err(), "verdict on a block with {} requests and {} tallies after {names:?} from epoch {epoch}", b.txns.data_request_txns.len(), b.txns.tally_txns.len());
            c.outcome(if got.is_ok() { "accepted" } else { "refused" });
        }
        Ok(())
    });
}

/// What the weights of transactions are, from the protocol's description.
fn vt_weight(ins: u32, outs: u32) -> u32 {
    133 * ins + 36 * 10 * outs
}
fn request_weight(ins: u32, outs: u32, witnesses: u32, rad: u32) -> u32 {
    rad + 30 + 133 * ins + 36 * outs + witnesses * (400 + 200 + 36) + 100
}

fn limits(run: &mut Run) {
    explore(run, "weights of transfers and requests", |c| {
        let epoch = c.of(&EPOCHS);
        let pv = protocol(epoch);
        let mut l: Ledger = (0..16).map(|i| (ptr(i, 0), (vto(1, 100_000, 0), 3))).collect();
        let mut chain = Chain::new(&l, epoch);
        let mut t = BlockTransactions::default();
        let (mut vts, mut drs, mut fees, mut next) = (0, 0, 0, 0);
        let mut shape = vec![];
        let mut take = |n: u8| {
            next += n;
            (next - n..next).map(|i| ptr(i, 0)).collect::<Vec<_>>()
        };
        for _ in 0..c.pick(3) {
            let (i, o) = c.of(&[(1, 0), (1, 1), (2, 3)]);
            let ins = take(i);
            let mut x = VTTransaction::new(VTTransactionBody::new(inputs(&ins), (0..o).map(|k| vto(k, 1, 0)).collect()), vec![]);
            let h = x.versioned_hash(pv);
            x.signatures = sign(&vec![1; i as usize], h);
            fees += apply(&mut l, h, &ins, &x.body.outputs, 0, epoch).unwrap();
            vts += vt_weight(i as u32, o as u32);
            t.value_transfer_txns.push(x);
            shape.push((i, o, 0));
        }
        // every request has the same sources
        let rad_weight = request(1, 1, 1, 51, 0).weight() - 30;
        for _ in 0..c.pick(3) {
            // four validators allow one witness
            let (i, o, w) = c.of(if version(epoch) >= 2 { &[(1, 0, 1), (2, 1, 1)] } else { &[(1, 0, 1), (2, 1, 1), (1, 1, 3)] });
            let ins = take(i);
            let outs: Vec<_> = (0..o).map(|_| vto(1, 1, 0)).collect();
            let mut x = DRTransaction::new(DRTransactionBody::new(inputs(&ins), request(w, 200, 10, 51, 0), outs), vec![]);
            let h = x.versioned_hash(pv);
            x.signatures = sign(&vec![1; i as usize], h);
            fees += apply(&mut l, h, &ins, &x.body.outputs, w as u64 * 220, epoch).unwrap();
            drs += request_weight(i as u32, o, w as u32, rad_weight);
            t.data_request_txns.push(x);
            shape.push((i, o as u8, w));
        }
        // requests of earlier blocks which still wait for commits; their transaction weighs nothing now
        let waiting = c.pick(3);
        for k in 0..waiting {
            let stage = c.pick(4);
            let mut x = DRTransaction::new(DRTransactionBody::new(inputs(&[ptr(100 + k as u8, 0)]), request(1, 200, 10, 51, 0), vec![]), vec![]);
            x.signatures = vec![signed(1, hash(1, 1))];
            let added = if stage == 3 { epoch + 1 } else { epoch - 1 };
            chain.drs.process_data_request(&x, added, None).unwrap();
            if stage == 1 {
                // beyond the stage of commits
                let body = CommitTransactionBody::new(x.versioned_hash(pv), hash(3, 3), Default::default(), vec![], vec![], None);
                chain.drs.process_commit(&CommitTransaction::new(body, vec![signed(9, hash(2, 2))]), epoch, &hash(4, 4)).unwrap();
                chain.drs.update_data_request_stages(Some(4), Some(epoch));
            }
            if stage == 0 || stage == 2 {
                drs += request_weight(0, 0, 1, rad_weight) * (!t.data_request_txns.is_empty()) as u32;
            }
            shape.push((9, 9, stage as u16));
        }
        let (tight_vt, tight_dr) = (c.flag(), c.flag());
        chain.cc.max_vt_weight = vts.saturating_sub(tight_vt as u32);
        chain.cc.max_dr_weight = drs.saturating_sub(tight_dr as u32);
        let want = !(tight_vt && !t.value_transfer_txns.is_empty()) && !(tight_dr && !t.data_request_txns.is_empty());
        t.mint = mint(epoch, fees);
        let what = format!("{shape:?} with limits {} (tight {tight_vt}) and {} (tight {tight_dr}) at epoch {epoch}", chain.cc.max_vt_weight, chain.cc.max_dr_weight);
        c.op(|| what.clone());
        c.state(&what);
        c.outcome(if want { "accepted" } else { "refused" });
        let b = chain.block(t);
        match chain.validate(&b) {
            Err(e) if want => Err(format!("block refused ({e}): {what}")),
            Ok(_) if !want => Err(format!("block accepted: {what}")),
            _ => Ok(()),
        }
    });
    explore(run, "weights of stakes and unstakes", |c| {
        let epoch = c.of(&EPOCHS[2..]);
        let pv = protocol(epoch);
        let mut l: Ledger = (0..152).map(|i| (ptr(i, 0), (vto(1, MIN_STAKE, 0), 3))).collect();
        let mut chain = Chain::new(&l, epoch);
        for v in 14..40 {
            chain.stakes.add_stake(stake_key(v, v), witnet_data_structures::wit::Wit::from_nanowits(2 * MIN_STAKE), 7, true, witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE)).unwrap();
        }
        let mut t = BlockTransactions::default();
        let (mut fees, mut weight, mut next) = (0, 0, 0);
        let shape = c.of(&[vec![], vec![(149, true)], vec![(150, false)], vec![(74, true), (74, true)], vec![(74, true), (75, false)], vec![(75, true), (74, false)], vec![(75, true), (75, true)]]);
        for (k, (n, change)) in shape.iter().enumerate() {
            let ins: Vec<_> = (next..next + n).map(|i: u8| ptr(i, 0)).collect();
            next += n;
            let outs: Vec<_> = if *change { vec![vto(1, 5, 0)] } else { vec![] };
            let v = 30 + k as u8;
            let output = StakeOutput { value: MIN_STAKE, key: stake_key(v, v), authorization: authorization(v, v) };
            let mut x = StakeTransaction::new(StakeTransactionBody::new(inputs(&ins), output, outs.first().cloned()), vec![]);
            let h = x.versioned_hash(pv);
            x.signatures = sign(&vec![1; *n as usize], h);
            fees += apply(&mut l, h, &ins, &outs, MIN_STAKE, epoch).unwrap();
            weight += 133 * *n as u32 + 36 * *change as u32 + 105;
            t.stake_txns.push(x);
        }
        let n = c.of(&[0, 1, 31, 32, 33]);
        for v in (7..40).filter(|v| *v < 11 || *v > 13).take(n) {
            if v < 11 {
                chain.stakes.add_stake(stake_key(v, v), witnet_data_structures::wit::Wit::from_nanowits(2 * MIN_STAKE), 7, true, witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE)).unwrap();
            }
            t.unstake_txns.push(unstake(v, v, 1000, 5, 7, pv));
        }
        for v in 11..14 {
            if t.unstake_txns.len() < n {
                chain.stakes.add_stake(stake_key(v, v), witnet_data_structures::wit::Wit::from_nanowits(2 * MIN_STAKE), 7, true, witnet_data_structures::wit::Wit::from_nanowits(MIN_STAKE)).unwrap();
                t.unstake_txns.push(unstake(v, v, 1000, 5, 7, pv));
            }
        }
        ensure!(t.unstake_txns.len() == n, "the harness made {} unstakes instead of {n}", t.unstake_txns.len());
        fees += 5 * n as u64;
        let want = weight <= 20_000 && n as u32 * 153 <= 5_000;
        t.mint = mint(epoch, fees);
        let what = format!("stakes of weight {weight} ({shape:?}) and {n} unstakes at epoch {epoch}");
        c.op(|| what.clone());
        c.state(&what);
        c.outcome(if want { "accepted" } else { "refused" });
        let b = chain.block(t);
        match chain.validate(&b) {
            Err(e) if want => Err(format!("block refused ({e}): {what}")),
            Ok(_) if !want => Err(format!("block accepted: {what}")),
            _ => Ok(()),
        }
    });
}
fn unstake(operator: u8, to: u8, value: u64, fee: u64, nonce: u64, pv: ProtocolVersion) -> UnstakeTransaction {
    let body = UnstakeTransactionBody::new(pkh(operator), vto(to, value, UNSTAKE_DELAY), fee, nonce);
    let mut x = UnstakeTransaction::new(body, KeyedSignature::default());
    x.signature = signed(to, x.versioned_hash(pv));
    x
}

fn genesis(run: &mut Run) {
    explore(run, "genesis blocks", |c| {
        // the first block may create coins, but never more than fit next to all rewards
        let left = u64::MAX - total_rewards();
        let mut l = Ledger::new();
        let mut chain = Chain::new(&l, 0);
        chain.number = 0;
        let n = c.pick(3);
        let (mut txs, mut total, mut fine, mut odd) = (vec![], 0u128, true, false);
        let mut what = vec![];
        for i in 0..n {
            let outs: Vec<u64> = c.of(&[vec![1], vec![5, 7], vec![left - 1], vec![left], vec![left + 1], vec![u64::MAX, 2], vec![], vec![3, 0]]);
            let body = VTTransactionBody::new(vec![], outs.iter().enumerate().map(|(k, v)| vto(i as u8, *v, k as u64)).collect());
            total += outs.iter().map(|x| *x as u128).sum::<u128>();
            fine &= !outs.is_empty() && !outs.contains(&0);
            what.push(outs);
            txs.push(VTTransaction::new(body, vec![]));
        }
        let m = if n > 0 { c.pick(4) } else { 0 };
        match m {
            1 => txs[0].signatures = vec![signed(1, hash(1, 1))],
            2 => txs[0].signatures = vec![KeyedSignature::default(); 300],
            3 => txs[0] = VTTransaction::new(VTTransactionBody::new(inputs(&[ptr(0, 0)]), txs[0].body.outputs.clone()), vec![]),
            _ => {}
        }
        odd |= m > 0;
        let want = fine && !odd && total <= left as u128;
        let b = Block::genesis(chain.cc.bootstrap_hash, txs.clone());
        chain.cc.genesis_hash = b.hash();
        if want {
            for t in &txs {
                for (k, o) in t.body.outputs.iter().enumerate() {
                    l.insert(p(t.versioned_hash(protocol(0)), k as u32), (o.clone(), 0));
                }
            }
        }
        let what = format!("{what:?}, unusual {m}");
        c.op(|| what.clone());
        c.state(&what);
        c.outcome(if want { "accepted" } else { "refused" });
        ensure!(validate_genesis_block(&b, b.hash()).is_ok(), "genesis block not recognized: {what}");
        match chain.validate(&b) {
            Err(e) if want => return Err(format!("genesis refused ({e}): {what}")),
            Ok(_) if !want => return Err(format!("genesis accepted: {what}")),
            Ok(d) => compare(&chain, &d, &l, false, &what)?,
            Err(_) => {}
        }
        // any other block is not the genesis block
        let mut other = b.clone();
        match c.pick(6) {
            0 => other.block_sig = signed(1, hash(1, 1)),
            1 => other.block_header.signals = 1,
            2 => other.block_header.proof.proof = witnet_data_structures::vrf::VrfProof::default(),
            3 => other.txns.mint = MintTransaction::new(0, vec![vto(1, 1, 0)]),
            4 => other.txns.stake_txns = vec![StakeTransaction::default()],
            _ => other.txns.value_transfer_txns.push(VTTransaction::new(VTTransactionBody::new(vec![], vec![vto(1, 1, 0)]), vec![])),
        }
        if other == b {
            return Ok(());
        }
        ensure!(validate_genesis_block(&other, b.hash()).is_err(), "another block than the genesis block accepted: {what}");
        Ok(())
    });
}
fn total_rewards() -> u64 {
    (0..64).map(|i| (REWARD >> i) * HALVING as u64).sum()
}

/// The message by which a validator accepts the stake of a withdrawer.
pub fn authorization(v: u8, w: u8) -> KeyedSignature {
    let mut m = [0; 32];
    m[..20].copy_from_slice(pkh(w).as_ref());
    signed(v, Hash::SHA256(m))
}

pub fn blocks(run: &mut Run) {
    setup();
    run.assume("block signatures and eligibility are decided by other checks; here the transactions of a block are validated with their signatures");
    transfers(run);
    mixtures(run);
    leftovers(run);
    limits(run);
    genesis(run);
}
