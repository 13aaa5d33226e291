//! The set of unspent outputs.
use mc::{Ch, Run, ensure, explore, same};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use witnet_data_structures::chain::{Hash, OutputPointer, PublicKeyHash, ValueTransferOutput};
use witnet_data_structures::transaction_factory::{NodeBalance, NodeBalance2, get_total_balance, get_utxos_balance};
use witnet_data_structures::utxo_pool::*;
use witnet_storage::storage::{Result as SResult, Storage, StorageIterator, WriteBatch};

pub fn ptr(tx: u8, i: u32) -> OutputPointer {
    let mut h = [0u8; 32];
    h[0] = tx;
    h[31] = 1;
    OutputPointer { transaction_id: Hash::SHA256(h), output_index: i }
}
pub fn pkh(x: u8) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[x; 20]).unwrap()
}
pub fn vto(p: u8, value: u64, time_lock: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(p), value, time_lock }
}

/// A handle to a storage that survives the pool which uses it (a restart keeps the disk).
struct Disk<S>(Arc<S>);
impl<S: Storage> Storage for Disk<S> {
    fn get(&self, key: &[u8]) -> SResult<Option<Vec<u8>>> {
        self.0.get(key)
    }
    fn put(&self, key: Vec<u8>, value: Vec<u8>) -> SResult<()> {
        self.0.put(key, value)
    }
    fn delete(&self, key: &[u8]) -> SResult<()> {
        self.0.delete(key)
    }
    fn prefix_iterator<'a, 'b: 'a>(&'a self, prefix: &'b [u8]) -> SResult<StorageIterator<'a>> {
        self.0.prefix_iterator(prefix)
    }
    fn write(&self, batch: WriteBatch) -> SResult<()> {
        self.0.write(batch)
    }
}

type Spec = BTreeMap<OutputPointer, (ValueTransferOutput, u32)>;
type Db = Arc<dyn UtxoDb + Send + Sync>;

fn compare(p: &UnspentOutputsPool, own: &OwnUnspentOutputsPool, all: &Spec, disk: &Spec, universe: &[OutputPointer]) -> Result<(), String> {
    for k in universe {
        same!(p.get(k), all.get(k).map(|x| x.0.clone()), "output {k}");
        same!(p.contains_key(k), all.contains_key(k), "contains {k}");
        same!(p.included_in_block_number(k), all.get(k).map(|x| x.1), "block of {k}");
    }
    let listed: Vec<_> = p.iter().collect();
    same!(listed.len(), all.len(), "number of outputs listed");
    same!(listed.into_iter().collect::<Spec>(), *all, "outputs listed");
    let (mut a, mut b) = (vec![], vec![]);
    p.visit(|x| a.push(x.clone()), |x| b.push(x.clone()));
    same!((a.len(), b.len()), (disk.len(), all.len()), "number of outputs visited");
    same!(a.into_iter().collect::<Spec>(), *disk, "confirmed outputs visited");
    same!(b.into_iter().collect::<Spec>(), *all, "outputs visited");
    for who in 0..3u8 {
        let (mut a, mut b) = (vec![], vec![]);
        p.visit_with_pkh(pkh(who), |x| a.push(x.clone()), |x| b.push(x.clone()));
        let f = |s: &Spec| s.iter().filter(|x| x.1.0.pkh == pkh(who)).map(|(k, v)| (*k, v.clone())).collect::<Spec>();
        same!((a.len(), b.len()), (f(disk).len(), f(all).len()), "number of outputs of {who}");
        same!(a.into_iter().collect::<Spec>(), f(disk), "confirmed outputs of {who}");
        same!(b.into_iter().collect::<Spec>(), f(all), "outputs of {who}");
        let sum = |s: &Spec| f(s).values().map(|x| x.0.value).sum::<u64>();
        same!(get_total_balance(p, pkh(who), false), NodeBalance::One { confirmed: Some(sum(disk)), total: sum(all) }, "balance of {who}");
        same!(get_total_balance(p, pkh(who), true), NodeBalance::One { confirmed: None, total: sum(all) }, "simple balance of {who}");
        for now in [0, 49, 50, 51] {
            let part = |l: bool| f(all).values().filter(|x| (x.0.time_lock > now) == l).map(|x| x.0.value).sum::<u64>();
            same!(get_utxos_balance(p, pkh(who), now), NodeBalance2::One { locked: part(true), staked: 0, unlocked: part(false) }, "balance of {who} at {now}");
        }
        for lim in [0, 1, 2] {
            let info = get_utxo_info(Some(pkh(who)), own, p, 7, lim);
            let got: BTreeMap<_, _> = info.utxos.iter().map(|u| (u.output_pointer, (u.value, u.timelock, u.utxo_mature))).collect();
            let exp: BTreeMap<_, _> = f(all).into_iter().map(|(k, v)| (k, (v.0.value, if v.0.time_lock > 1 << 40 { v.0.time_lock } else { 0 }, v.1 <= lim))).collect();
            same!((info.utxos.len(), got), (exp.len(), exp), "information on the outputs of {who}");
            same!(info.collateral_min, 7, "collateral");
        }
    }
    let mine: Spec = all.iter().filter(|x| x.1.0.pkh == pkh(0)).map(|(k, v)| (*k, v.clone())).collect();
    same!(own.keys().copied().collect::<BTreeSet<_>>(), mine.keys().copied().collect::<BTreeSet<_>>(), "own outputs");
    same!(own.get_balance(p), mine.values().map(|x| x.0.value).sum::<u64>(), "own balance");
    let info = get_utxo_info(None, own, p, 7, 1);
    same!(info.utxos.iter().map(|u| (u.output_pointer, u.value)).collect::<BTreeMap<_, _>>(), mine.iter().map(|(k, v)| (*k, v.0.value)).collect(), "information on own outputs");
    Ok(())
}

struct World {
    p: UnspentOutputsPool,
    own: OwnUnspentOutputsPool,
    all: Spec,
    disk: Spec,
    /// A snapshot (at a superblock) not persisted yet.
    snap: Option<(UnspentOutputsPool, Spec)>,
    block: u32,
    tx: u8,
    universe: Vec<OutputPointer>,
}

impl World {
    /// Applies a block the way the node does: a diff over the pool, then the pool.
    fn block(&mut self, c: &mut Ch, kind: usize) -> Result<(), String> {
        let mut diff = UtxoDiff::new(&self.p, self.block);
        let mut view = self.all.clone();
        let mut steps = vec![];
        self.tx += 1;
        let n = self.tx;
        match kind {
            // a coinbase paying two
            0 => {
                steps.push((true, ptr(n, 0), vto(0, 10 + n as u64, 0)));
                steps.push((true, ptr(n, 1), vto(1, 100 + n as u64, 50)));
            }
            // spend a known output, keep the change
            1 => {
                let k = *view.keys().nth(c.pick(view.len())).unwrap();
                steps.push((false, k, vto(0, 0, 0)));
                steps.push((true, ptr(n, 0), vto(c.pick(2) as u8, 1000 + n as u64, if n % 2 == 0 { 1 << 41 } else { 0 })));
            }
            // spend two
            2 => {
                let i = c.pick(view.len());
                let j = c.pick(view.len() - 1);
                let k = *view.keys().nth(i).unwrap();
                steps.push((false, k, vto(0, 0, 0)));
                let l = *view.keys().filter(|x| **x != k).nth(j).unwrap();
                steps.push((false, l, vto(0, 0, 0)));
            }
            // an output created and spent in the same block
            _ => {
                steps.push((true, ptr(n, 0), vto(0, 5, 0)));
                steps.push((true, ptr(n, 300), vto(2, 6, 51)));
                steps.push((false, ptr(n, 0), vto(0, 0, 0)));
                if let Some(k) = view.keys().next().copied() {
                    steps.push((false, k, vto(0, 0, 0)));
                }
            }
        }
        let b = self.block;
        let base = self.all.clone();
        for (add, k, v) in steps {
            c.op(|| format!("{} {k}", if add { "create" } else { "spend" }));
            if !self.universe.contains(&k) {
                self.universe.push(k);
            }
            if add {
                let other = (n == 2).then_some(b + 1);
                diff.insert_utxo(k, v.clone(), other);
                view.insert(k, (v, other.unwrap_or(b)));
            } else {
                diff.remove_utxo(k);
                view.remove(&k);
            }
            for k in &self.universe {
                same!(diff.get(k), view.get(k).map(|x| x.0.clone()), "output {k} seen by the block");
                if base.contains_key(k) {
                    same!(diff.included_in_block_number(k), view.get(k).map(|x| x.1), "block of {k} seen by the block");
                }
            }
        }
        let diff = diff.take_diff();
        let mut seen = (vec![], vec![]);
        diff.visit(&mut seen, |s, k, v| s.0.push((*k, v.clone())), |s, k| s.1.push(*k));
        let added: BTreeMap<_, _> = view.iter().filter(|x| !base.contains_key(x.0)).map(|(k, v)| (*k, v.0.clone())).collect();
        let removed: BTreeSet<_> = base.keys().filter(|k| !view.contains_key(k)).copied().collect();
        same!(seen.0.iter().cloned().collect::<BTreeMap<_, _>>(), added, "outputs added by the block");
        same!(seen.1.iter().copied().collect::<BTreeSet<_>>(), removed, "outputs removed by the block");
        same!((seen.0.len(), seen.1.len()), (added.len(), removed.len()), "size of the difference");
        for (k, v) in seen.0 {
            if v.pkh == pkh(0) {
                self.own.insert(k, 0);
            }
        }
        for k in seen.1 {
            self.own.remove(&k);
        }
        diff.apply(&mut self.p);
        self.all = view;
        self.block += 1;
        Ok(())
    }
    fn persist(p: &mut UnspentOutputsPool, batched: bool) -> Result<(), String> {
        if batched {
            let mut batch = UtxoWriteBatch::default();
            batch.put_raw(b"chain-state".to_vec(), vec![1]);
            p.persist_add_to_batch(&mut batch);
            p.db.as_ref().unwrap().write(batch).map_err(|e| e.to_string())
        } else {
            p.persist();
            Ok(())
        }
    }
}

fn history(c: &mut Ch, open: &dyn Fn() -> Result<Db, String>, depth: usize) -> Result<(), String> {
    let mut w = World { p: UnspentOutputsPool { db: Some(open()?), ..Default::default() }, own: OwnUnspentOutputsPool::new(), all: Spec::new(), disk: Spec::new(), snap: None, block: 0, tx: 0, universe: vec![ptr(1, 0), ptr(1, 7)] };
    let mut persisted = false;
    for _ in 0..depth {
        // what can be done next
        let mut menu = vec![0, 3];
        if !w.all.is_empty() {
            menu.push(1);
        }
        if w.all.len() > 1 {
            menu.push(2);
        }
        menu.push(4);
        if w.snap.is_some() {
            menu.push(5);
        } else {
            menu.push(6);
        }
        menu.push(7);
        if w.snap.is_none() {
            menu.push(8);
        }
        match c.of(&menu) {
            k @ 0..=3 => w.block(c, k)?,
            4 => {
                c.op(|| "superblock: keep a snapshot".into());
                w.snap = Some((w.p.clone(), w.all.clone()));
            }
            5 => {
                c.op(|| "persist the snapshot".into());
                let (mut s, all) = w.snap.take().unwrap();
                w.p.remove_persisted_from_memory(&s.diff);
                World::persist(&mut s, true)?;
                w.disk = all;
                persisted = true;
            }
            6 => {
                c.op(|| "persist now".into());
                World::persist(&mut w.p, false)?;
                w.disk = w.all.clone();
                persisted = true;
            }
            7 => {
                c.op(|| "restart".into());
                w.p = UnspentOutputsPool { db: Some(open()?), ..Default::default() };
                w.all = w.disk.clone();
                w.own = OwnUnspentOutputsPool::new();
                let own = &mut w.own;
                w.p.visit_with_pkh(pkh(0), |_| {}, |x| { own.insert(x.0, 0); });
                w.snap = None;
            }
            _ => {
                c.op(|| "delete everything stored and migrate it back from the old format".into());
                let old = w.p.clone();
                let mut old = OldUnspentOutputsPool::from(old);
                let had = w.disk.len();
                same!(w.p.delete_all_from_db(), had, "deleted outputs");
                ensure!(w.p.db.as_ref().unwrap().utxo_iterator().map_err(|e| e.to_string())?.next().is_none(), "outputs left after deleting all");
                w.p.diff = Diff::new();
                w.p.migrate_old_unspent_outputs_pool_to_db(&mut old, |_, _| {});
                w.disk = w.all.clone();
                ensure!(old.is_empty(), "old pool not emptied");
            }
        }
        compare(&w.p, &w.own, &w.all, &w.disk, &w.universe)?;
        c.state(&(format!("{:?}{:?}", w.all, w.disk), w.snap.as_ref().map(|s| format!("{:?}", s.1))));
    }
    c.outcome(if persisted { "persisted" } else { "never persisted" });
    Ok(())
}

pub fn view(run: &mut Run) {
    run.assume("the node's protocol around the pool: a snapshot is persisted before the next one is persisted, and the pool's own diff is persisted only when no snapshot is pending");
    let depth = run.pick(5, 6);
    explore(run, "outputs in memory and on disk", |c| {
        let disk = Arc::new(witnet_storage::backends::hashmap::Backend::default());
        let open = || -> Result<Db, String> { Ok(Arc::new(UtxoDbWrapStorage(Disk(disk.clone())))) };
        history(c, &open, depth)
    });
    explore(run, "outputs in memory and on disk, cached by address", |c| {
        let disk = Arc::new(witnet_storage::backends::hashmap::Backend::default());
        let open = || -> Result<Db, String> { Ok(Arc::new(CacheUtxosByPkh::new(UtxoDbWrapStorage(Disk(disk.clone()))).map_err(|e| e.to_string())?)) };
        history(c, &open, depth)
    });
    // A stored value comes back as it was for every boundary value.
    explore(run, "stored values", |c| {
        let disk = Arc::new(witnet_storage::backends::hashmap::Backend::default());
        let k = OutputPointer { transaction_id: Hash::SHA256(c.of(&[[0u8; 32], [255; 32], [16; 32]])), output_index: c.of(&[0, 1, 9, 10, 255, 256, u32::MAX]) };
        let v = ValueTransferOutput { pkh: pkh(c.of(&[0, 1, 255])), value: c.of(&[0, 1, 255, u64::MAX]), time_lock: c.of(&[0, 1, u64::MAX]) };
        let b = c.of(&[0, 1, u32::MAX]);
        let mut p = UnspentOutputsPool { db: Some(Arc::new(UtxoDbWrapStorage(Disk(disk.clone())))), ..Default::default() };
        c.op(|| format!("store {k} = {v:?}, {b}"));
        p.insert(k, v.clone(), b);
        p.persist();
        let q = UnspentOutputsPool { db: Some(Arc::new(UtxoDbWrapStorage(Disk(disk)))), ..Default::default() };
        same!(q.get(&k), Some(v.clone()), "stored output");
        same!(q.included_in_block_number(&k), Some(b), "stored block number");
        same!(q.iter().collect::<Vec<_>>(), vec![(k, (v, b))], "stored outputs");
        c.state(&format!("{k}{b}"));
        Ok(())
    });
}
