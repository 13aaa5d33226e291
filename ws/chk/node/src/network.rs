//! Several nodes, what connects them, and what is asked of all of them all the time.
use crate::net::*;
use actix::world;
use rocksdb::DB;
use std::{collections::BTreeMap, net::SocketAddr, time::Duration};
use witnet_data_structures::{chain::*, transaction::*};
use witnet_p2p::sessions::SessionType;
use witnet_node::actors::{connections_manager::ASKED, messages::*, storage_keys};

/// What a disk says about the chain.
pub struct Stored {
    pub state: Option<ChainState>,
    pub utxos: BTreeMap<String, (ValueTransferOutput, u32)>,
    pub superblocks: BTreeMap<u32, SuperBlockNotify>,
    dump: BTreeMap<Vec<u8>, Vec<u8>>,
}
fn key<T: serde::Serialize>(k: &T) -> Vec<u8> {
    bincode::serialize(k).unwrap()
}
pub fn stored(d: &DB, magic: u16) -> Stored {
    let dump = d.dump();
    let state = dump.get(&key(&storage_keys::chain_state_key(magic))).map(|v| {
        assert_eq!(v[..4], 5u32.to_le_bytes(), "another version of the chain state");
        bincode::deserialize::<ChainState>(&v[4..]).expect("a chain state that cannot be read")
    });
    let utxos = dump
        .iter()
        .filter_map(|(k, v)| Some((std::str::from_utf8(k).ok()?.strip_prefix("UTXO-")?.to_string(), bincode::deserialize(v).expect("an output that cannot be read"))))
        .collect();
    let superblocks = dump
        .iter()
        .filter_map(|(k, v)| {
            let k: Vec<u8> = bincode::deserialize(k).ok()?;
            let k = std::str::from_utf8(&k).ok()?.strip_prefix("SUPERBLOCK-")?.parse::<u32>().ok()?;
            Some((k, bincode::deserialize(v).expect("a superblock that cannot be read")))
        })
        .collect();
    Stored { state, utxos, superblocks, dump }
}
impl Stored {
    pub fn block(&self, h: Hash) -> Option<Block> {
        let Hash::SHA256(b) = h;
        self.dump.get(&key(&b.to_vec())).map(|v| bincode::deserialize(v).expect("a block that cannot be read"))
    }
    /// Where a transaction is said to be.
    pub fn pointer(&self, h: Hash) -> Option<PointerToBlock> {
        let Hash::SHA256(b) = h;
        self.dump.get(&key(&b.to_vec())).and_then(|v| bincode::deserialize(v).ok())
    }
    /// The outputs that are left after all blocks of the stored chain, one after the other, and how
    /// much was minted.
    pub fn replay(&self) -> Result<(BTreeMap<String, ValueTransferOutput>, BTreeMap<u32, Block>), String> {
        let mut m = BTreeMap::new();
        let mut blocks = BTreeMap::new();
        let Some(st) = &self.state else { return Ok((m, blocks)) };
        let mut prev = st.get_consensus_constants().bootstrap_hash;
        for (e, h) in &st.block_chain {
            let b = self.block(*h).ok_or_else(|| format!("the block of epoch {e} is in the stored chain, but not on the disk"))?;
            mc::ensure!(b.block_header.beacon.checkpoint == *e, "the block at epoch {e} is for epoch {}", b.block_header.beacon.checkpoint);
            mc::ensure!(b.block_header.beacon.hash_prev_block == prev, "the block of epoch {e} is not built on the one before it");
            prev = *h;
            for t in transactions(&b) {
                let hash = t.hash();
                for i in t.inputs() {
                    let k = i.output_pointer().to_string();
                    mc::ensure!(m.remove(&k).is_some(), "the block of epoch {e} spends {k}, which is not there");
                }
                for (i, o) in t.outputs().into_iter().enumerate() {
                    m.insert(format!("{hash}:{i}"), o);
                }
                if *e != 0 {
                    mc::ensure!(self.pointer(hash).is_some_and(|p| p.block_hash == *h), "the disk does not say that transaction {hash} is in the block of epoch {e}");
                }
            }
            blocks.insert(*e, b);
        }
        let tip = st.get_chain_beacon();
        mc::ensure!(tip.hash_prev_block == prev, "the stored tip is not the last block of the stored chain");
        Ok((m, blocks))
    }
    /// Everything on the disk agrees with everything else.
    pub fn audit(&self) -> Result<(), String> {
        let Some(st) = &self.state else {
            mc::ensure!(self.utxos.is_empty(), "there are outputs on the disk, but no chain state");
            return Ok(());
        };
        if st.chain_info.is_none() {
            return Ok(());
        }
        let (m, blocks) = self.replay()?;
        let got: BTreeMap<_, _> = self.utxos.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
        if got != m {
            let more: Vec<_> = got.iter().filter(|(k, v)| m.get(*k) != Some(v)).collect();
            let less: Vec<_> = m.iter().filter(|(k, v)| got.get(*k) != Some(v)).collect();
            return Err(format!("the stored outputs are not those of the stored chain: too many {more:?}, too few {less:?}"));
        }
        // Coins are only made by mining, and only lost to collaterals and rewards still in play
        let k = st.get_consensus_constants();
        if st.data_request_pool.data_request_pool.is_empty() {
            let sum: u128 = got.values().map(|o| o.value as u128).sum();
            let mined: u128 = blocks.keys().filter(|e| **e != 0).map(|e| witnet_validations::validations::block_reward(*e, k.initial_block_reward, k.halving_period) as u128).sum();
            let genesis = 4 * 100_000_000_000;
            // Those who lied about a data request lose their collateral to nobody
            let mut lost = 0;
            for t in blocks.values().flat_map(|b| &b.txns.tally_txns) {
                let dr = blocks.values().flat_map(|b| &b.txns.data_request_txns).find(|d| d.hash() == t.dr_pointer).ok_or("a tally without a request")?;
                let commits = blocks.values().flat_map(|b| &b.txns.commit_txns).filter(|c| c.body.dr_pointer == t.dr_pointer).count();
                if t.out_of_consensus.len() < commits {
                    let liars = t.out_of_consensus.iter().filter(|p| !t.error_committers.contains(p)).count();
                    lost += liars as u128 * dr.body.dr_output.collateral as u128;
                }
            }
            mc::ensure!(sum + lost == genesis + mined, "there are {sum} nanowits in {} blocks, not {}", blocks.len(), genesis + mined - lost);
        }
        Ok(())
    }
}
/// Every transaction of a block, in the order in which they apply.
pub fn transactions(b: &Block) -> Vec<Transaction> {
    let t = &b.txns;
    let mut v = vec![];
    v.extend(t.value_transfer_txns.iter().cloned().map(Transaction::ValueTransfer));
    v.extend(t.data_request_txns.iter().cloned().map(Transaction::DataRequest));
    v.extend(t.commit_txns.iter().cloned().map(Transaction::Commit));
    v.extend(t.reveal_txns.iter().cloned().map(Transaction::Reveal));
    v.extend(t.tally_txns.iter().cloned().map(Transaction::Tally));
    if b.block_header.beacon.checkpoint != 0 {
        v.push(Transaction::Mint(t.mint.clone()));
    }
    v
}
trait InsAndOuts {
    fn inputs(&self) -> Vec<Input>;
    fn outputs(&self) -> Vec<ValueTransferOutput>;
}
impl InsAndOuts for Transaction {
    fn inputs(&self) -> Vec<Input> {
        match self {
            Transaction::ValueTransfer(t) => t.body.inputs.clone(),
            Transaction::DataRequest(t) => t.body.inputs.clone(),
            Transaction::Commit(t) => t.body.collateral.clone(),
            Transaction::Stake(t) => t.body.inputs.clone(),
            _ => vec![],
        }
    }
    fn outputs(&self) -> Vec<ValueTransferOutput> {
        match self {
            Transaction::ValueTransfer(t) => t.body.outputs.clone(),
            Transaction::DataRequest(t) => t.body.outputs.clone(),
            Transaction::Commit(t) => t.body.outputs.clone(),
            Transaction::Tally(t) => t.outputs.clone(),
            Transaction::Mint(t) => t.outputs.clone(),
            Transaction::Stake(t) => t.body.change.clone().into_iter().collect(),
            _ => vec![],
        }
    }
}

struct Wire {
    a: usize,
    b: usize,
    link: Link,
}
pub struct Network {
    pub o: Opts,
    pub nodes: Vec<Option<Node>>,
    pub disks: Vec<DB>,
    wires: Vec<Wire>,
    port: u16,
    /// Which side of the cut everyone is on.
    side: Vec<u8>,
    /// What was said to be consolidated for good, by whom first
    said: BTreeMap<u32, (SuperBlock, usize)>,
    /// The highest superblock that each node ever had consolidated
    high: Vec<u32>,
}
impl Network {
    /// All nodes, a little before the first epoch, connected to each other.
    pub fn start(o: Opts) -> Network {
        begin(-5);
        let disks: Vec<DB> = (0..o.nodes).map(disk).collect();
        let nodes = (0..o.nodes).map(|n| Some(boot(n, disks[n].clone(), &o))).collect();
        let mut w = Network { side: vec![0; o.nodes], high: vec![0; o.nodes], nodes, disks, wires: vec![], port: 40_000, said: BTreeMap::new(), o };
        for a in 0..w.o.nodes {
            for b in 0..w.o.nodes {
                w.wire(a, b, SessionType::Outbound)
            }
        }
        w
    }
    pub fn node(&self, n: usize) -> &Node {
        self.nodes[n].as_ref().expect("that node is not there")
    }
    pub fn magic(&self) -> u16 {
        config(0, &self.o).consensus_constants.get_magic()
    }
    fn wire(&mut self, a: usize, b: usize, kind: SessionType) {
        if a == b {
            return;
        }
        let Some(x) = &self.nodes[a] else { return };
        match &self.nodes[b] {
            Some(y) if self.side[a] == self.side[b] => {
                self.wires.retain(|w| !(w.link.a_to_b.closed() && w.link.b_to_a.closed()));
                self.port += 1;
                self.wires.push(Wire { a, b, link: connect(x, y, kind, self.port) })
            }
            // Nobody answers
            _ => x.peers.do_send(RemoveAddressesFromTried { addresses: vec![addr(b)], ice: true }),
        }
    }
    /// From now on, nodes hear only from those on the same side.
    pub fn cut(&mut self, side: &[u8]) {
        self.side = side.to_vec();
        for w in &self.wires {
            let held = side[w.a] != side[w.b];
            w.link.a_to_b.hold(held);
            w.link.b_to_a.hold(held);
        }
        world::settle();
    }
    /// The process is killed.
    pub fn kill(&mut self, n: usize) {
        if let Some(x) = self.nodes[n].take() {
            world::kill(x.id)
        }
    }
    /// It is started again, with what is on this disk.
    pub fn revive(&mut self, n: usize, d: DB) {
        self.disks[n] = d.clone();
        self.nodes[n] = Some(boot(n, d, &self.o));
        for m in 0..self.o.nodes {
            self.wire(n, m, SessionType::Outbound);
            self.wire(m, n, SessionType::Outbound);
        }
    }
    /// The world is larger than these nodes: one that has no addresses left hears of the others again.
    fn gossip(&mut self) {
        for (n, x) in self.nodes.iter().enumerate() {
            if let Some(x) = x {
                let all = world::block_on(x.peers.send(RequestPeers)).expect("the peers manager is gone");
                if all.is_ok_and(|l| l.is_empty()) {
                    let others = (0..self.o.nodes).filter(|m| *m != n).map(addr).collect();
                    x.peers.do_send(AddPeers { addresses: others, src_address: None });
                }
            }
        }
    }
    /// Makes the connections that were asked for.
    fn connect_those_who_ask(&mut self) {
        let asked: Vec<(usize, SocketAddr, _)> = ASKED.with(|a| std::mem::take(&mut *a.borrow_mut()));
        for (id, to, kind) in asked {
            let a = self.nodes.iter().position(|x| x.as_ref().is_some_and(|x| x.id == id));
            let b = (0..self.o.nodes).find(|n| addr(*n) == to);
            if let (Some(a), Some(b)) = (a, b) {
                self.wire(a, b, kind)
            }
        }
    }
    /// Time passes.
    pub fn run(&mut self, secs: u64) -> Result<(), String> {
        self.run_until(secs, &mut |_| false).map(|_| ())
    }
    /// Time passes, until this is so after some step.
    pub fn run_until(&mut self, secs: u64, enough: &mut dyn FnMut(&Network) -> bool) -> Result<bool, String> {
        for _ in 0..secs / 5 {
            let me: &Network = self;
            if world::advance_until(Duration::from_secs(5), &mut || enough(me)) {
                return Ok(true);
            }
            self.connect_those_who_ask();
            self.gossip();
            self.check()?;
        }
        Ok(false)
    }
    pub fn epochs(&mut self, n: u64) -> Result<(), String> {
        self.run(n * PERIOD as u64)
    }
    /// What must be so at every moment.
    fn check(&mut self) -> Result<(), String> {
        if let Some(c) = world::stop_code() {
            return Err(format!("a node stopped itself ({c})"));
        }
        mc::ensure!(world::panics() == 0, "a node panicked");
        Ok(())
    }
    /// What must be so whenever it is looked at, but takes long to look at.
    pub fn audit(&mut self) -> Result<(), String> {
        for n in 0..self.o.nodes {
            let s = stored(&self.disks[n], self.magic());
            s.audit().map_err(|e| format!("node {n}: {e}"))?;
            for (i, x) in &s.superblocks {
                let (was, who) = self.said.entry(*i).or_insert((x.superblock.clone(), n));
                mc::ensure!(was.hash() == x.superblock.hash(), "node {n} has superblock {i} consolidated as {:?}, but node {who} had {was:?}", x.superblock);
            }
            let high = s.state.as_ref().and_then(|s| s.chain_info.as_ref()).map_or(0, |c| c.highest_superblock_checkpoint.checkpoint);
            mc::ensure!(high >= self.high[n], "node {n} went back from superblock {} to {high}", self.high[n]);
            self.high[n] = high;
        }
        Ok(())
    }
    pub fn beacons(&self) -> Vec<Option<CheckpointBeacon>> {
        self.nodes.iter().map(|n| n.as_ref().map(|n| n.beacon())).collect()
    }
    /// All are on the same block, and the network goes on.
    pub fn together(&self) -> bool {
        let b = self.beacons();
        let s: Vec<String> = (0..self.o.nodes).map(|n| self.state(n)).collect();
        b.iter().all(|x| *x == b[0]) && s.iter().all(|x| x == "Synced" || x == "AlmostSynced") && s.iter().any(|x| x == "Synced")
    }
    pub fn high(&self, n: usize) -> u32 {
        stored(&self.disks[n], self.magic()).state.and_then(|s| s.chain_info).map_or(0, |c| c.highest_superblock_checkpoint.checkpoint)
    }
    pub fn state(&self, n: usize) -> String {
        format!("{:?}", self.node(n).ask(GetState).unwrap())
    }
    pub fn summary(&self) -> String {
        (0..self.o.nodes)
            .map(|n| match &self.nodes[n] {
                Some(x) => format!("[{n}: {} #{} {} s{} rec {}]", self.state(n), x.beacon().checkpoint, &x.beacon().hash_prev_block.to_string()[..6], self.high(n), x.disk.records()),
                None => format!("[{n}: gone]"),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn pay(&self, from: usize, to: usize, value: u64) -> Result<Hash, String> {
        let vto = vec![ValueTransferOutput { pkh: pkh(to), value, time_lock: 0 }];
        let m = BuildVtt { vto, fee: witnet_data_structures::fee::Fee::absolute_from_nanowits(1000), utxo_strategy: Default::default(), dry_run: false };
        let Some(n) = &self.nodes[from] else { return Err("gone".into()) };
        n.ask(m).map(|t| t.hash()).map_err(|e| e.to_string())
    }
    /// Everybody is gone.
    pub fn end(self) {
        for d in &self.disks {
            d.wipe()
        }
        let nodes: Vec<Node> = self.nodes.into_iter().flatten().collect();
        end(&nodes)
    }
}
