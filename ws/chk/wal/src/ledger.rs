//! What a wallet owns according to the blocks it has processed.
use crate::world::*;
use std::collections::BTreeMap;
use witnet_data_structures::{
    chain::{Block, Hash, Input, PublicKeyHash, ValueTransferOutput},
    transaction::Transaction,
};
use witnet_data_structures::radon_error::RadonError;
use witnet_rad::{error::RadError, types::RadonTypes};
use witnet_wallet::model::{self, MovementType, OutputType};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Info {
    pub payments: Vec<String>,
    pub amount: u64,
    pub first: Option<u64>,
    pub last: Option<u64>,
}
#[derive(Clone, Debug, Default)]
pub struct Ledger {
    pub utxos: BTreeMap<(Hash, u32), (u64, PublicKeyHash, u64)>,
    pub stakes: BTreeMap<(PublicKeyHash, PublicKeyHash), u64>,
    pub moves: Vec<model::BalanceMovement>,
    pub infos: BTreeMap<PublicKeyHash, Info>,
    pub time: Option<u64>,
}
/// Whether an address belongs to the wallet, and on which keychain.
pub fn own(pkh: &PublicKeyHash) -> OutputType {
    if keys().external.contains(pkh) {
        OutputType::External
    } else if keys().internal.contains(pkh) {
        OutputType::Internal
    } else {
        OutputType::Other
    }
}
pub fn mine(pkh: &PublicKeyHash) -> bool {
    own(pkh) != OutputType::Other
}
pub fn output(o: &ValueTransferOutput) -> model::Output {
    model::Output { address: o.pkh.to_string(), time_lock: o.time_lock, value: o.value, output_type: own(&o.pkh) }
}
/// What an output of a known transaction is worth.
pub fn resolve(node: &Node, i: &Input) -> ValueTransferOutput {
    let p = i.output_pointer();
    let (t, _) = &node.txs[&p.transaction_id.to_string()];
    outputs(t)[p.output_index as usize].clone()
}
pub fn outputs(t: &Transaction) -> Vec<ValueTransferOutput> {
    match t {
        Transaction::ValueTransfer(t) => t.body.outputs.clone(),
        Transaction::DataRequest(t) => t.body.outputs.clone(),
        Transaction::Commit(t) => t.body.outputs.clone(),
        Transaction::Tally(t) => t.outputs.clone(),
        Transaction::Mint(t) => t.outputs.clone(),
        Transaction::Stake(t) => t.body.change.clone().into_iter().collect(),
        Transaction::Unstake(t) => vec![t.body.withdrawal.clone()],
        Transaction::Reveal(_) => vec![],
    }
}
pub fn inputs(t: &Transaction) -> Vec<Input> {
    match t {
        Transaction::ValueTransfer(t) => t.body.inputs.clone(),
        Transaction::DataRequest(t) => t.body.inputs.clone(),
        Transaction::Commit(t) => t.body.collateral.clone(),
        Transaction::Stake(t) => t.body.inputs.clone(),
        _ => vec![],
    }
}
fn error(e: RadError) -> RadonTypes {
    RadonTypes::from(RadonError::try_from(e).unwrap())
}
fn report(node: &Node, t: &witnet_data_structures::transaction::TallyTransaction) -> model::TallyReport {
    let show = |b: &[u8]| RadonTypes::try_from(b).unwrap_or_else(|_| error(RadError::MalformedReveal)).to_string();
    let revealed = &node.of_tally[&(t.dr_pointer, t.tally.clone())].reveals;
    let mut reveals: Vec<model::Reveal> = revealed
        .iter()
        .map(|(pkh, r)| model::Reveal { value: show(&r.body.reveal), in_consensus: !t.out_of_consensus.contains(pkh) })
        .collect();
    // Those who did not reveal are out of consensus too
    reveals.extend(t.out_of_consensus.iter().filter(|p| !revealed.contains_key(p)).map(|_| model::Reveal { value: error(RadError::NoReveals).to_string(), in_consensus: false }));
    reveals.sort_by(|a, b| (&a.value, a.in_consensus).cmp(&(&b.value, b.in_consensus)));
    model::TallyReport { result: show(&t.tally), reveals }
}
/// The same movement with its reveals in a fixed order, and without its place in the database.
pub fn canon(mut m: model::BalanceMovement) -> model::BalanceMovement {
    m.db_key = 0;
    let t = match &mut m.transaction.data {
        model::TransactionData::DataRequest(d) => d.tally.as_mut(),
        model::TransactionData::Tally(d) => Some(&mut d.tally),
        _ => None,
    };
    if let Some(t) = t {
        t.reveals.sort_by(|a, b| (&a.value, a.in_consensus).cmp(&(&b.value, b.in_consensus)));
    }
    m
}

impl Ledger {
    /// The ledger after `blocks`, the first `confirmed` of which a superblock has confirmed.
    pub fn of(node: &Node, blocks: &[Block], confirmed: usize) -> Ledger {
        let mut l = Ledger::default();
        for (i, b) in blocks.iter().enumerate() {
            let epoch = b.block_header.beacon.checkpoint;
            let time = time_of(epoch);
            for t in block_txs(b) {
                l.tx(node, &t, Some(model::Beacon { epoch, block_hash: block_hash(b) }), time, i < confirmed, tx_hash(&t, epoch));
            }
            l.time = Some(time);
        }
        l
    }
    /// One transaction. Returns the movement, if the wallet takes part in it.
    pub fn tx(&mut self, node: &Node, t: &Transaction, block: Option<model::Beacon>, time: u64, confirmed: bool, hash: Hash) -> Option<model::BalanceMovement> {
        let (ins, outs) = (inputs(t), outputs(t));
        let key = |i: &Input| (i.output_pointer().transaction_id, i.output_pointer().output_index);
        let resolved: Vec<ValueTransferOutput> = ins.iter().map(|i| resolve(node, i)).collect();
        let spent: u64 = ins.iter().filter_map(|i| self.utxos.get(&key(i))).map(|u| u.0).sum();
        let got: u64 = outs.iter().filter(|o| mine(&o.pkh)).map(|o| o.value).sum();
        let takes_part = ins.iter().any(|i| self.utxos.contains_key(&key(i))) || outs.iter().any(|o| mine(&o.pkh));
        // The result of a data request completes the movement of the request
        if let Transaction::Tally(t) = t {
            for m in &mut self.moves {
                if m.transaction.hash == t.dr_pointer.to_string()
                    && let model::TransactionData::DataRequest(d) = &mut m.transaction.data
                {
                    d.tally = Some(report(node, t));
                }
            }
        }
        if !takes_part {
            return None;
        }
        for i in &ins {
            self.utxos.remove(&key(i));
        }
        for (n, o) in outs.iter().enumerate().filter(|(_, o)| mine(&o.pkh)) {
            self.utxos.insert((hash, n as u32), (o.value, o.pkh, o.time_lock));
            if matches!(t, Transaction::ValueTransfer(_) | Transaction::Mint(_) | Transaction::Stake(_) | Transaction::Unstake(_)) {
                let i = self.infos.entry(o.pkh).or_default();
                i.payments.push(format!("{hash}:{n}"));
                i.amount += o.value;
                i.first.get_or_insert(time);
                i.last = Some(time);
            }
        }
        let (sum_in, sum_out) = (resolved.iter().map(|o| o.value).sum::<u64>(), outs.iter().map(|o| o.value).sum::<u64>());
        let from: Vec<model::Input> = resolved.iter().map(|o| model::Input { address: o.pkh.to_string(), value: o.value }).collect();
        let to: Vec<model::Output> = outs.iter().map(output).collect();
        let (data, fee) = match t {
            Transaction::ValueTransfer(_) => (model::TransactionData::ValueTransfer(model::VtData { inputs: from, outputs: to }), if ins.is_empty() { 0 } else { sum_in - sum_out }),
            Transaction::DataRequest(d) => (
                model::TransactionData::DataRequest(model::DrData { inputs: from, outputs: to, tally: None }),
                sum_in - sum_out - d.body.dr_output.checked_total_value().unwrap(),
            ),
            // The inputs that do not come back as change are the collateral
            Transaction::Commit(_) => (model::TransactionData::Commit(model::VtData { inputs: from, outputs: to }), 0),
            Transaction::Tally(d) => (
                model::TransactionData::Tally(model::TallyData { request_transaction_hash: d.dr_pointer.to_string(), outputs: to, tally: report(node, d) }),
                0,
            ),
            Transaction::Mint(_) => (model::TransactionData::Mint(model::MintData { outputs: to }), 0),
            Transaction::Stake(s) => {
                *self.stakes.entry((s.body.output.key.validator, s.body.output.key.withdrawer)).or_default() += s.body.output.value;
                (
                    model::TransactionData::Stake(model::StakeData { inputs: from, output: s.body.output.clone(), change: to.first().cloned() }),
                    sum_in - sum_out - s.body.output.value,
                )
            }
            Transaction::Unstake(u) => {
                let k = (u.body.operator, u.body.withdrawal.pkh);
                let s = self.stakes.entry(k).or_default();
                *s -= u.body.withdrawal.value + u.body.fee;
                if *s == 0 {
                    self.stakes.remove(&k);
                }
                (model::TransactionData::Unstake(model::UnstakeData { withdrawal: to[0].clone() }), u.body.fee)
            }
            Transaction::Reveal(_) => return None,
        };
        let m = model::BalanceMovement {
            db_key: 0,
            kind: if got >= spent { MovementType::Positive } else { MovementType::Negative },
            amount: got.abs_diff(spent),
            transaction: model::WalletTransaction { block, confirmed, data, hash: hash.to_string(), miner_fee: fee, timestamp: time },
        };
        self.moves.push(m.clone());
        Some(m)
    }
    pub fn balance(&self) -> model::BalanceInfo {
        let time = self.time.unwrap_or(0);
        let mut b = model::BalanceInfo::default();
        for (v, _, lock) in self.utxos.values() {
            if *lock < time { b.available += v } else { b.locked += v }
        }
        b.staked = self.stakes.values().sum();
        b
    }
}
