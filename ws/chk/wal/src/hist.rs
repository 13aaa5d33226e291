//! C40: whatever a wallet is told, in whatever order, it shows what the blocks it has processed say.
use crate::{
    ledger::{self, Ledger, canon, mine},
    world::*,
};
use mc::*;
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::Arc,
};
use witnet_data_structures::{
    chain::*,
    fee::Fee,
    staking::prelude::StakeKey,
    transaction::*,
    utxo_pool::UtxoSelectionStrategy,
};
use witnet_wallet::{model, types};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tpl {
    Empty,
    Receive,
    ReceiveLocked,
    Spend,
    SpendAll,
    Mixed,
    Mint,
    Request,
    Tally,
    TallyRefund,
    Commit,
    Stake,
    StakeNoChange,
    UnstakeSome,
    UnstakeAll,
    Chained,
    Local,
}
use Tpl::*;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// A block is mined and the wallet is told.
    Block(Tpl),
    /// A block is mined and the wallet does not hear of it.
    Lost(Tpl),
    /// The last block not yet confirmed is replaced.
    Reorg(Tpl),
    /// A superblock confirms every block.
    Super,
    /// A superblock confirms one more block.
    SuperOne,
    /// A superblock confirms every block and the wallet does not hear of it.
    SuperLost,
    /// The wallet process ends, starts again and synchronizes.
    Restart,
    /// The process ends and starts again; the next block is all it hears.
    RestartNoSync,
    /// The user asks for everything to be read again.
    Resync,
    /// The node says that it is synchronized.
    Synced,
    /// The wallet creates a transaction and sends it.
    Send,
    /// The same with the transaction submitted twice.
    SendTwice,
}

fn vto(pkh: PublicKeyHash, value: u64, time_lock: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh, value, time_lock }
}
fn input(k: &(Hash, u32)) -> Input {
    Input::new(OutputPointer { transaction_id: k.0, output_index: k.1 })
}
fn vtt(i: Vec<Input>, o: Vec<ValueTransferOutput>) -> VTTransaction {
    VTTransaction::new(VTTransactionBody::new(i, o), vec![])
}
/// Genesis: money for the wallet and for others.
fn genesis() -> BlockTransactions {
    let k = keys();
    let mut o = vec![vto(k.external[0], 1000, 0), vto(k.external[1], 500, 0), vto(k.external[0], 300, 0)];
    o.extend((0..10).map(|i| vto(foreign(0), 100 + i, 0)));
    BlockTransactions { value_transfer_txns: vec![vtt(vec![], o)], ..Default::default() }
}

#[derive(Clone, Default)]
struct Model {
    view: Vec<Block>,
    confirmed: usize,
    locals: BTreeMap<String, model::BalanceMovement>,
    /// Reading everything again makes the wallet forget addresses nobody has paid to.
    reread: bool,
}
impl Model {
    fn tip(&self, n: usize) -> CheckpointBeacon {
        match n.checked_sub(1) {
            None => CheckpointBeacon { checkpoint: 0, hash_prev_block: bootstrap() },
            Some(i) => CheckpointBeacon { checkpoint: self.view[i].block_header.beacon.checkpoint, hash_prev_block: block_hash(&self.view[i]) },
        }
    }
    fn deliver(&mut self, b: &Block, confirmed: bool) -> bool {
        let (h, last, conf) = (b.block_header.beacon, self.tip(self.view.len()), self.tip(self.confirmed));
        if h.hash_prev_block == last.hash_prev_block && (h.checkpoint == 0 || h.checkpoint > last.checkpoint) {
        } else if h.checkpoint > conf.checkpoint && h.hash_prev_block == conf.hash_prev_block {
            self.forget_pending();
        } else if h.checkpoint == conf.checkpoint && block_hash(b) == conf.hash_prev_block {
            self.forget_pending();
            return true;
        } else {
            return false;
        }
        self.view.push(b.clone());
        for t in block_txs(b) {
            self.locals.remove(&tx_hash(&t, h.checkpoint).to_string());
        }
        if confirmed {
            self.confirmed = self.view.len();
        }
        true
    }
    fn forget_pending(&mut self) {
        self.view.truncate(self.confirmed);
        self.locals.clear();
    }
    fn sync(&mut self, node: &Node) -> bool {
        let since = self.tip(self.confirmed).checkpoint;
        if self.confirmed == 0 && !self.deliver(&node.chain[0], true) {
            return false;
        }
        for (i, b) in node.chain.iter().enumerate() {
            if b.block_header.beacon.checkpoint > since && !self.deliver(b, i < node.confirmed) {
                return false;
            }
        }
        true
    }
    fn superblock(&mut self, hashes: &[String], node: &Node) -> bool {
        if hashes.last().is_some_and(|h| *h == self.tip(self.confirmed).hash_prev_block.to_string()) {
            return true;
        }
        for h in hashes {
            if *h == block_hash(&node.chain[0]).to_string() {
                continue;
            }
            match self.view.iter().position(|b| block_hash(b).to_string() == *h) {
                Some(i) if i >= self.confirmed => self.confirmed = i + 1,
                _ => return self.sync(node),
            }
        }
        true
    }
}

pub struct Game {
    pub w: World,
    m: Model,
}
impl Game {
    pub fn new(first: u32, batch: u16) -> Result<Game, String> {
        let w = World::empty(false, batch, 1_000_000, genesis()).with_wallet()?;
        if first > 1 {
            w.node.lock().unwrap().mine(first - 1, Default::default());
            w.node.lock().unwrap().confirmed = 2;
        }
        for (e, n) in [(true, 3), (false, 2)] {
            for _ in 0..n {
                w.gen_address(e, None)?;
            }
        }
        w.sync().map_err(|e| format!("the first sync: {e}"))?;
        let mut m = Model::default();
        ensure!(m.sync(&w.node.lock().unwrap()), "the first sync fails");
        Ok(Game { w, m })
    }
    /// The transactions of a template, as far as the state of the chain allows.
    fn build(&self, t: Tpl) -> Option<BlockTransactions> {
        let node = self.w.node.lock().unwrap();
        self.build_on(&node, &Ledger::of(&node, &node.chain, node.confirmed), t)
    }
    fn build_on(&self, node: &Node, l: &Ledger, t: Tpl) -> Option<BlockTransactions> {
        let k = keys();
        let epoch = node.chain.last().unwrap().block_header.beacon.checkpoint + 1;
        let n = node.mined;
        let own: Vec<_> = l.utxos.iter().collect();
        let big = own.iter().max_by_key(|(p, u)| (u.0, p.0));
        let small = own.iter().min_by_key(|(p, u)| (u.0, p.0));
        let g = tx_hash(&Transaction::ValueTransfer(node.chain[0].txns.value_transfer_txns[0].clone()), 0);
        let other = input(&(g, 3 + (n % 10) as u32));
        let other_value = 100 + n % 10;
        let mut b = BlockTransactions::default();
        b.mint = MintTransaction::new(epoch, vec![vto(foreign(1), 250, 0)]);
        match t {
            Empty => {}
            Receive => b.value_transfer_txns.push(vtt(vec![other], vec![vto(foreign(2), 7, 0), vto(k.external[(n % 2) as usize], other_value - 10, 0)])),
            ReceiveLocked => b.value_transfer_txns.push(vtt(vec![other], vec![vto(k.external[2], other_value, time_of(epoch) + 15)])),
            Spend => {
                let (p, u) = big?;
                b.value_transfer_txns.push(vtt(vec![input(p)], vec![vto(foreign(2), u.0 / 2, 0), vto(k.internal[0], u.0 - u.0 / 2 - 1, 0)]))
            }
            SpendAll => {
                let (p, u) = small?;
                b.value_transfer_txns.push(vtt(vec![input(p)], vec![vto(foreign(2), u.0 - 3, 0)]))
            }
            Mixed => {
                let (p, u) = small?;
                b.value_transfer_txns.push(vtt(vec![other, input(p)], vec![vto(k.external[1], u.0 + 1, 0), vto(foreign(2), other_value - 2, 0)]));
                let (p, u) = big?;
                b.value_transfer_txns.push(vtt(vec![input(p)], vec![vto(k.external[1], 20, 0), vto(k.external[1], u.0 - 20, 0)]))
            }
            Tpl::Mint => b.mint.outputs = vec![vto(k.external[0], 200, 0), vto(foreign(1), 50, 0)],
            Request => {
                let (p, u) = big?;
                let dr = DataRequestOutput { witness_reward: 10, witnesses: 2, commit_and_reveal_fee: 1, min_consensus_percentage: 51, collateral: 0, ..Default::default() };
                let v = dr.checked_total_value().unwrap();
                b.data_request_txns.push(DRTransaction::new(DRTransactionBody::new(vec![input(p)], dr, vec![vto(u.1, u.0 - v - 2, 0)]), vec![]))
            }
            Tally | TallyRefund => {
                let done: BTreeSet<Hash> = node.chain.iter().flat_map(|b| b.txns.tally_txns.iter().map(|t| t.dr_pointer)).collect();
                let (dr, e) = node
                    .chain
                    .iter()
                    .flat_map(|b| b.txns.data_request_txns.iter().map(|t| (t.clone(), b.block_header.beacon.checkpoint)))
                    .find(|(d, e)| !done.contains(&tx_hash(&Transaction::DataRequest(d.clone()), *e)))?;
                let h = tx_hash(&Transaction::DataRequest(dr.clone()), e);
                let mut o = vec![vto(foreign(3), 11, 0)];
                if t == TallyRefund {
                    o.push(vto(dr.body.outputs[0].pkh, 12, 0));
                }
                b.tally_txns.push(TallyTransaction::new(h, vec![0x18, 40 + n as u8], o, if t == TallyRefund { vec![foreign(4), foreign(7)] } else { vec![foreign(4)] }, vec![]))
            }
            Tpl::Commit => {
                let (p, u) = small?;
                let body = CommitTransactionBody::new(Hash::SHA256([n as u8; 32]), Hash::SHA256([1; 32]), Default::default(), vec![input(p)], vec![vto(u.1, u.0 - 5, 0)], None);
                b.commit_txns.push(CommitTransaction::new(body, vec![]))
            }
            Tpl::Stake | StakeNoChange => {
                let (p, u) = big?;
                let (value, change) = if t == Tpl::Stake { (u.0 / 3 + n, true) } else { (u.0 - 1, false) };
                let output = StakeOutput { key: StakeKey { validator: foreign(5), withdrawer: k.external[0] }, value, authorization: Default::default() };
                let change = change.then(|| vto(k.internal[1], u.0 - value - 1, 0));
                b.stake_txns.push(StakeTransaction::new(StakeTransactionBody::new(vec![input(p)], output, change), vec![]))
            }
            UnstakeSome | UnstakeAll => {
                let v = *l.stakes.get(&(foreign(5), k.external[0]))?;
                let value = if t == UnstakeSome { v / 4 } else { v - 2 };
                b.unstake_txns.push(UnstakeTransaction::new(UnstakeTransactionBody::new(foreign(5), vto(k.external[0], value, time_of(epoch) + 15), 2, n), Default::default()))
            }
            Chained => {
                let first = vtt(vec![other], vec![vto(k.external[0], other_value, 0)]);
                let h = tx_hash(&Transaction::ValueTransfer(first.clone()), epoch);
                b.value_transfer_txns.push(first);
                b.value_transfer_txns.push(vtt(vec![input(&(h, 0))], vec![vto(foreign(2), other_value - 1, 0)]));
            }
            Local => {
                let chain: HashSet<String> = node.chain.iter().flat_map(|b| block_txs(b).into_iter().map(|t| tx_hash(&t, b.block_header.beacon.checkpoint).to_string())).collect();
                let h = self.m.locals.keys().find(|h| !chain.contains(*h))?;
                match &node.txs.get(h)?.0 {
                    Transaction::ValueTransfer(t) => {
                        // Its inputs are still there
                        if !t.body.inputs.iter().all(|i| l.utxos.contains_key(&(i.output_pointer().transaction_id, i.output_pointer().output_index))) {
                            return None;
                        }
                        b.value_transfer_txns.push(t.clone())
                    }
                    _ => return None,
                }
            }
        }
        Some(b)
    }
    fn mine(&self, t: Tpl) -> Option<Block> {
        let b = self.build(t)?;
        let mut node = self.w.node.lock().unwrap();
        let epoch = node.chain.last().unwrap().block_header.beacon.checkpoint + 1;
        let b = node.mine(epoch, b);
        for t in &b.txns.tally_txns {
            let reveal = |v: u8, i: u8| {
                let body = RevealTransactionBody::new(t.dr_pointer, vec![0x18, v], foreign(i));
                (foreign(i), RevealTransaction { body, signatures: vec![] })
            };
            let mut reveals = HashMap::from([reveal(50, 3), reveal(60, 4)]);
            if t.outputs.len() > 1 {
                // One who revealed nothing that can be read
                let body = RevealTransactionBody::new(t.dr_pointer, vec![0x1f], foreign(3));
                reveals.insert(foreign(3), RevealTransaction { body, signatures: vec![] });
            }
            let r = DataRequestInfo { reveals, tally: Some(t.clone()), ..Default::default() };
            node.of_tally.insert((t.dr_pointer, t.tally.clone()), r.clone());
            node.reports.insert(t.dr_pointer.to_string(), r);
        }
        Some(b)
    }
    /// Those actions that can be done now.
    pub fn can(&self, acts: &[Act]) -> Vec<Act> {
        let n = self.w.node.lock().unwrap();
        let l = Ledger::of(&n, &n.chain, n.confirmed);
        let can = |a: &Act| match a {
            Act::Block(t) | Act::Lost(t) => self.build_on(&n, &l, *t).is_some(),
            Act::Reorg(_) | Act::Super | Act::SuperOne | Act::SuperLost => n.confirmed < n.chain.len(),
            Act::Send | Act::SendTwice => self.m.locals.len() < 2,
            _ => true,
        };
        acts.iter().filter(|a| can(a)).copied().collect()
    }
    /// Does it to the wallet and to the model.
    pub fn act(&mut self, a: &Act) -> Result<(), String> {
        let agree = |code: Result<(), String>, spec: bool| -> Result<(), String> {
            match (code, spec) {
                (Ok(()), true) | (Err(_), false) => Ok(()),
                (Err(e), true) => Err(format!("{a:?} is refused: {e}")),
                (Ok(()), false) => Err(format!("{a:?} is accepted")),
            }
        };
        match *a {
            Act::Lost(t) => {
                self.mine(t);
            }
            Act::Block(t) | Act::Reorg(t) => {
                if matches!(a, Act::Reorg(_)) {
                    self.w.node.lock().unwrap().chain.pop();
                }
                let Some(b) = self.mine(t).or_else(|| self.mine(Empty)) else { return Ok(()) };
                agree(self.w.block(&b).map_err(|e| e.to_string()), self.m.deliver(&b, false))?;
            }
            Act::Super | Act::SuperOne | Act::SuperLost => {
                let hashes: Vec<String> = {
                    let mut n = self.w.node.lock().unwrap();
                    let from = n.confirmed;
                    n.confirmed = if *a == Act::SuperOne { from + 1 } else { n.chain.len() };
                    n.chain[from..n.confirmed].iter().map(|b| block_hash(b).to_string()).collect()
                };
                if *a != Act::SuperLost {
                    let spec = self.m.superblock(&hashes, &self.w.node.lock().unwrap());
                    agree(self.w.superblock(hashes).map_err(|e| e.to_string()), spec)?;
                }
            }
            Act::Restart | Act::RestartNoSync => {
                let db = Arc::new(rocksdb::DB::from_log(&self.w.db.log()));
                self.w.restart(db)?;
                self.m.forget_pending();
                if *a == Act::Restart {
                    let spec = self.m.sync(&self.w.node.lock().unwrap());
                    agree(self.w.sync().map_err(|e| e.to_string()), spec)?;
                }
            }
            Act::Resync => {
                self.m = Model { reread: true, ..Model::default() };
                let spec = self.m.sync(&self.w.node.lock().unwrap());
                agree(self.w.resync().map(|_| ()).map_err(|e| e.to_string()), spec)?;
            }
            Act::Synced => {
                self.m.forget_pending();
                let spec = self.m.sync(&self.w.node.lock().unwrap());
                agree(self.w.node_synced().map_err(|e| e.to_string()), spec)?;
            }
            Act::Send | Act::SendTwice => {
                let p = types::VttParams {
                    fee: Fee::absolute_from_nanowits(2),
                    outputs: vec![vto(foreign(6), 20, 0)],
                    utxo_strategy: UtxoSelectionStrategy::SmallFirst { from: None },
                    selected_utxos: HashSet::new(),
                    preview: false,
                };
                let Ok((t, _)) = self.w.w().create_vtt(p) else { return Ok(()) };
                let epoch = 5;
                let h = tx_hash(&t.transaction, epoch);
                for _ in 0..=(*a == Act::SendTwice) as u8 {
                    self.w.w().add_local_movement(&t).map_err(|e| format!("submitting: {e}"))?;
                }
                let mut node = self.w.node.lock().unwrap();
                node.txs.insert(h.to_string(), (t.transaction.clone(), String::new()));
                let mut l = Ledger::of(&node, &self.m.view, self.m.confirmed);
                let m = l.tx(&node, &t.transaction, Some(model::Beacon { epoch: 0, block_hash: Hash::default() }), 0, false, h);
                if let Some(m) = m {
                    self.m.locals.insert(h.to_string(), m);
                }
            }
        }
        Ok(())
    }
    pub fn check(&self) -> Result<(), String> {
        let node = self.w.node.lock().unwrap();
        shows(&self.w, &node, &self.m)
    }
    pub fn key(&self) -> u128 {
        let node = self.w.node.lock().unwrap();
        let hs = |b: &[Block]| b.iter().map(|b| block_hash(b).to_string()).collect::<Vec<_>>();
        let state = self.w.w().lock_and_read_state(|s| format!("{:?}", *s)).unwrap_or_default();
        let mut tokens: Vec<&str> = state.split(|c: char| !c.is_alphanumeric()).filter(|t| t.parse::<u64>().map_or(true, |n| n < 1_600_000_000)).collect();
        tokens.sort_unstable();
        fp(&(hs(&self.m.view), self.m.confirmed, hs(&node.chain), node.confirmed, self.m.locals.keys().collect::<Vec<_>>(), tokens))
    }
}

/// Every view the wallet offers, against the model.
fn shows(w: &World, node: &Node, m: &Model) -> Result<(), String> {
    let d = w.w().public_data().map_err(|e| format!("public data: {e}"))?;
    same!(d.last_sync, m.tip(m.view.len()), "the last block seen");
    same!(d.last_confirmed, m.tip(m.confirmed), "the last block confirmed");
    let l = Ledger::of(node, &m.view, m.confirmed);
    let c = Ledger::of(node, &m.view[..m.confirmed], m.confirmed);
    let b = w.w().balance().map_err(|e| format!("balance: {e}"))?;
    same!(b, d.balance, "the balance");
    same!(b.confirmed, c.balance(), "the confirmed balance");
    same!(b.unconfirmed, l.balance(), "the unconfirmed balance");
    same!(b.local, m.locals.values().map(|m| m.amount).sum::<u64>(), "the local balance");
    let utxos: BTreeMap<(Hash, u32), (u64, PublicKeyHash, u64)> = w
        .w()
        .get_utxo_info()
        .map_err(|e| format!("utxos: {e}"))?
        .iter()
        .map(|(p, i)| {
            let p = OutputPointer::from(p);
            ((p.transaction_id, p.output_index), (i.amount, i.pkh, i.time_lock))
        })
        .collect();
    same!(utxos, l.utxos, "the unspent outputs");
    // Movements: every one of them, once, in pages of any size
    let total = l.moves.len() + m.locals.len();
    let by = |v: Vec<model::BalanceMovement>| -> BTreeMap<String, Vec<String>> {
        let mut r = BTreeMap::<String, Vec<String>>::new();
        for x in v {
            let mut x = canon(x);
            if x.transaction.timestamp > 1_600_000_000 {
                x.transaction.timestamp = 0;
            }
            r.entry(x.transaction.hash.clone()).or_default().push(format!("{x:?}"));
        }
        r
    };
    let mut locals: Vec<_> = m.locals.values().cloned().collect();
    for x in &mut locals {
        x.transaction.timestamp = 0;
    }
    let expected = by(l.moves.iter().cloned().chain(locals).collect());
    for limit in 1..=total.max(1) + 1 {
        let mut all = vec![];
        let mut offset = 0;
        while offset < total {
            let t = w.transactions(offset as u32, limit as u32)?;
            same!(t.total as usize, total, "how many movements there are");
            same!(t.transactions.len(), limit.min(total - offset), "movements {offset}..{} of {total}", offset + limit);
            all.extend(t.transactions);
            offset += limit;
        }
        let got = by(all);
        if got != expected {
            for k in got.keys().chain(expected.keys()).collect::<BTreeSet<_>>() {
                same!(got.get(k), expected.get(k), "movement {k}, in pages of {limit}");
            }
        }
    }
    ensure!(w.transactions(total as u32, 5)?.transactions.is_empty(), "there are movements after the last");
    // Addresses: what was paid to each
    let mut listed = BTreeSet::new();
    for external in [true, false] {
        let a = w.addresses(external, 0, 100)?;
        same!(a.total as usize, a.addresses.len(), "how many addresses there are");
        for (i, a) in a.addresses.iter().rev().enumerate() {
            let k = keys();
            same!(a.pkh, if external { k.external[i] } else { k.internal[i] }, "address {i}");
            let e = l.infos.get(&a.pkh).cloned().unwrap_or_default();
            let i = ledger::Info { payments: a.info.received_payments.clone(), amount: a.info.received_amount, first: a.info.first_payment_date, last: a.info.last_payment_date };
            same!(i, e, "payments to address {} (external {external})", a.index);
            listed.insert(a.pkh);
        }
    }
    for p in l.infos.keys() {
        ensure!(m.reread || listed.contains(p), "{p} was paid and is not listed");
    }
    ensure!(l.utxos.values().all(|u| mine(&u.1)), "model");
    Ok(())
}

/// The wallet shows the chain up to some block, or what it showed before.
fn consistent(w: &World, node: &Node, m: &Model) -> Result<Model, String> {
    let mut first = Err("the wallet's tip is in neither chain".to_string());
    let d = w.w().public_data().map_err(|e| format!("public data: {e}"))?;
    for view in [&node.chain, &m.view] {
        for len in 0..=view.len() {
            for confirmed in 0..=len {
                for locals in [&m.locals, &BTreeMap::new()] {
                    let c = Model { view: view[..len].to_vec(), confirmed, locals: locals.clone(), reread: m.reread };
                    if c.tip(len) != d.last_sync || c.tip(confirmed) != d.last_confirmed {
                        continue;
                    }
                    match shows(w, node, &c) {
                        Ok(()) => return Ok(c),
                        e => first = first.and(Err(String::new())).or(e.map(|_| c)),
                    }
                }
            }
        }
    }
    first
}

/// The last of `acts` meets a fault; afterwards the wallet is consistent, and complete once it has synchronized.
fn faulty(c: &mut Ch, first: u32, acts: &[Act], kind: usize) -> Result<(), String> {
    let (before, last) = acts.split_at(acts.len() - 1);
    let last = last[0];
    let start = || -> Result<Option<Game>, String> {
        let mut g = Game::new(first, 5)?;
        for a in before {
            if g.can(&[*a]).is_empty() {
                return Ok(None);
            }
            g.act(a)?;
        }
        Ok((!g.can(&[last]).is_empty()).then_some(g))
    };
    // How many places there are for the fault
    let Some(mut g) = start()? else {
        c.outcome("not applicable");
        return Ok(());
    };
    g.w.db.fail_after(None);
    g.w.node.lock().unwrap().requests = 0;
    let records = g.w.db.log().len();
    g.act(&last)?;
    let places = match kind {
        0 => g.w.db.used() as usize,
        1 => g.w.node.lock().unwrap().requests,
        _ => g.w.db.log().len() - records,
    };
    if places == 0 {
        c.outcome("nothing to fail");
        return Ok(());
    }
    let at = c.pick(places);
    for a in acts {
        c.op(|| format!("{a:?}"));
    }
    c.op(|| format!("the last meets fault {} at {at}", ["the database fails", "the node is lost", "the process dies"][kind]));
    let mut g = start()?.unwrap();
    match kind {
        0 => g.w.db.fail_after(Some(at as u64)),
        1 => {
            let mut n = g.w.node.lock().unwrap();
            n.lost_from = Some(n.requests + at)
        }
        _ => {}
    }
    let was = g.m.clone();
    let r = guard(|| g.act(&last));
    g.w.db.fail_after(None);
    g.w.node.lock().unwrap().lost_from = None;
    if let Err(p) = r {
        return Err(p);
    }
    let mut m = was;
    m.reread |= matches!(last, Act::Resync);
    if kind == 2 {
        let db = Arc::new(rocksdb::DB::from_log(&g.w.db.log()[..records + at]));
        g.w.restart(db)?;
        m.locals.clear();
    }
    let node = g.w.node.clone();
    let node = || node.lock().unwrap();
    // A transaction may have been submitted before the fault
    if !matches!(last, Act::Send) {
        consistent(&g.w, &node(), &m).map_err(|e| format!("right after the fault: {e}"))?;
    }
    g.w.node_synced().map_err(|e| format!("synchronization after the fault: {e}"))?;
    let n = node();
    let m = Model { view: n.chain.clone(), confirmed: n.confirmed, locals: BTreeMap::new(), reread: m.reread };
    shows(&g.w, &n, &m).map_err(|e| format!("after the fault and synchronization: {e}"))?;
    drop(n);
    // And goes on from there
    g.m = m;
    g.act(&Act::Block(Receive))?;
    g.check()?;
    c.state(&g.key());
    c.outcome("recovered");
    Ok(())
}

struct Histories {
    acts: Vec<Act>,
    first: u32,
}
#[derive(Clone)]
struct H {
    acts: Vec<Act>,
    can: Vec<Act>,
    key: u128,
}
impl Histories {
    fn play(&self, acts: &[Act]) -> Result<H, String> {
        let mut g = Game::new(self.first, 5)?;
        if acts.is_empty() {
            g.check()?;
        }
        for (i, a) in acts.iter().enumerate() {
            g.act(a)?;
            if i + 1 == acts.len() {
                g.check()?;
            }
        }
        Ok(H { acts: acts.to_vec(), can: g.can(&self.acts), key: g.key() })
    }
}
impl System for Histories {
    type S = H;
    type A = Act;
    fn init(&self) -> Vec<H> {
        vec![self.play(&[]).unwrap()]
    }
    fn actions(&self, s: &H) -> Vec<Act> {
        s.can.clone()
    }
    fn step(&self, s: &mut H, a: &Act) -> Result<(), String> {
        let mut acts = s.acts.clone();
        acts.push(*a);
        *s = self.play(&acts)?;
        Ok(())
    }
    fn key(&self, s: &H) -> u128 {
        s.key
    }
}

pub fn c40(run: &mut Run) {
    use Act::*;
    let control = [Super, SuperOne, SuperLost, Restart, Resync, Synced, Reorg(Empty)];
    let family = |tpls: &[Tpl], more: &[Act]| -> Vec<Act> { tpls.iter().map(|t| Block(*t)).chain(more.iter().copied()).chain(control).collect() };
    let d = run.pick(4, 5);
    bfs(run, "payments", &Histories { acts: family(&[Receive, Tpl::Spend, Mixed], &[Reorg(Receive), Lost(Receive)]), first: 2 }, d, 2_000_000);
    bfs(run, "stakes", &Histories { acts: family(&[Tpl::Stake, StakeNoChange, UnstakeSome, UnstakeAll], &[Reorg(Tpl::Stake)]), first: 5 }, d, 2_000_000);
    bfs(run, "requests", &Histories { acts: family(&[Request, Tpl::Tally, TallyRefund], &[Reorg(Tpl::Tally)]), first: 3 }, d, 2_000_000);
    bfs(run, "others", &Histories { acts: family(&[ReceiveLocked, SpendAll, Tpl::Mint, Tpl::Commit, Chained], &[RestartNoSync]), first: 4 }, d, 2_000_000);
    bfs(run, "sent", &Histories { acts: family(&[Local, Receive], &[Send, SendTwice, Reorg(Local)]), first: 5 }, d, 2_000_000);
    let prefixes: Vec<Vec<Act>> = vec![
        vec![],
        vec![Block(Receive)],
        vec![Block(Receive), Super],
        vec![Block(Tpl::Spend), SuperOne, Block(Tpl::Stake)],
        vec![Block(Request), Super, Block(Tpl::Tally)],
        vec![Block(Request), Block(Tpl::Tally)],
        vec![Block(Tpl::Stake), Super, Block(UnstakeSome)],
        vec![Lost(Receive), Lost(Tpl::Spend)],
        vec![Lost(Receive), SuperLost],
        vec![Send],
    ];
    let lasts = [Block(Mixed), Block(Tpl::Stake), Block(TallyRefund), Block(Request), Super, Resync, Synced, Reorg(Receive), Send];
    for (kind, name) in ["the database fails", "the node is lost", "the process dies"].iter().enumerate() {
        explore(run, name, |c| {
            let mut acts = c.of(&prefixes);
            acts.push(c.of(&lasts));
            faulty(c, 5, &acts, kind)
        });
    }
    run.assume("The wallet's database is an in-memory stand-in with atomic batches, the node a model that answers getBlockChain, getBlock, getTransaction and dataRequestReport");
}
