//! C42: what a wallet pays with.
use crate::{rpc::*, world::*};
use mc::*;
use serde_json::{Value, json};
use std::{
    collections::BTreeSet,
    sync::{Arc, Mutex, OnceLock},
};
use witnet_data_structures::{
    chain::*,
    chain::tapi::current_active_wips,
    proto::{ProtobufConvert, versioning::{ProtocolVersion, VersionedHashable}},
    transaction::*,
    utxo_pool::{UnspentOutputsPool, UtxoDiff},
    vrf::VrfCtx,
};
use witnet_validations::validations::{validate_dr_transaction, validate_vt_transaction, verify_signatures};

const FUTURE: u64 = 4_102_444_800;
const OWN: usize = 6;
/// Long after all time locks but one are over.
const EPOCH: u32 = 200_000_000;

fn out(pkh: PublicKeyHash, value: u64, time_lock: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh, value, time_lock }
}
fn genesis() -> Vec<ValueTransferOutput> {
    let k = keys();
    vec![
        out(k.external[0], 100_000, 0),
        out(k.external[0], 250_000, 0),
        out(k.external[1], 100_000, 5),
        out(k.internal[0], 40_000, 0),
        out(k.external[0], 1_000_000, FUTURE),
        out(k.external[1], 7, 0),
        out(foreign(1), 3_000_000, 0),
    ]
}
fn vtt(inputs: Vec<OutputPointer>, outputs: Vec<ValueTransferOutput>) -> VTTransaction {
    VTTransaction::new(VTTransactionBody::new(inputs.into_iter().map(Input::new).collect(), outputs), vec![])
}
fn block_of(v: Vec<VTTransaction>) -> BlockTransactions {
    BlockTransactions { value_transfer_txns: v, ..Default::default() }
}

/// What happened to the wallet before.
#[derive(Clone, Copy, Debug)]
struct Scene {
    unconfirmed: bool,
    /// In a block not yet confirmed: nothing; money comes; and money goes.
    pending: u8,
    /// A payment was sent, and is not in a block yet; its inputs stay reserved for this long.
    sent: Option<u64>,
    /// How many inputs and outputs, at most.
    max: u32,
}
#[derive(Clone, Debug)]
struct Coin {
    ptr: OutputPointer,
    out: ValueTransferOutput,
    confirmed: bool,
    used: bool,
}
struct Live {
    rpc: Rpc,
    session: String,
    id: String,
    coins: Vec<Coin>,
    pool: UnspentOutputsPool,
    /// How many internal addresses there are.
    internal: usize,
    scene: Scene,
}
fn wallet_params(s: &Scene, genesis: Hash) -> witnet_wallet::params::Params {
    let mut p = params(s.unconfirmed, 3, s.sent.unwrap_or(1_000_000), genesis);
    p.max_vt_weight = s.max;
    p
}
/// A wallet that has read the genesis block.
fn template() -> &'static (Node, Vec<Vec<rocksdb::Op>>, String, Hash) {
    static T: OnceLock<(Node, Vec<Vec<rocksdb::Op>>, String, Hash)> = OnceLock::new();
    T.get_or_init(|| read(genesis()))
}
fn read(first: Vec<ValueTransferOutput>) -> (Node, Vec<Vec<rocksdb::Op>>, String, Hash) {
    let w = World::empty(false, 3, 1_000_000, block_of(vec![vtt(vec![], first)])).with_wallet().unwrap();
    w.sync().unwrap();
    let n = w.node.lock().unwrap().clone();
    let h = block_hash(&n.chain[0]);
    (n, w.db.log(), w.id.clone(), h)
}
fn dust(o: &[ValueTransferOutput]) -> Value {
    o.iter().map(|o| json!({"address": o.pkh.to_string(), "amount": o.value.to_string(), "time_lock": (o.time_lock > 0).then_some(o.time_lock)})).collect()
}
impl Live {
    fn new(scene: Scene) -> Result<Live, String> {
        let mut l = Live::from(scene, template(), genesis())?;
        l.pending()?;
        Ok(l)
    }
    fn from(scene: Scene, (node, log, id, h): &(Node, Vec<Vec<rocksdb::Op>>, String, Hash), genesis: Vec<ValueTransferOutput>) -> Result<Live, String> {
        let node = Arc::new(Mutex::new(node.clone()));
        let rpc = Rpc::start(node.clone(), Arc::new(rocksdb::DB::from_log(log)), wallet_params(&scene, *h));
        let v = rpc.call("unlock_wallet", json!({"wallet_id": id, "password": PASSWORD})).map_err(|e| format!("unlock: {e:?}"))?;
        let session = v["session_id"].as_str().unwrap().to_string();
        let t = Transaction::ValueTransfer(vtt(vec![], genesis.clone()));
        let at = |i| OutputPointer { transaction_id: tx_hash(&t, 0), output_index: i };
        let coins: Vec<Coin> = genesis.iter().cloned().enumerate().filter(|(_, o)| o.pkh != foreign(1)).map(|(i, out)| Coin { ptr: at(i as u32), out, confirmed: true, used: false }).collect();
        let mut pool = UnspentOutputsPool::default();
        for (i, o) in genesis.into_iter().enumerate() {
            pool.insert(at(i as u32), o, 0);
        }
        Ok(Live { rpc, session, id: id.clone(), coins, pool, internal: 1, scene })
    }
    /// What happened since.
    fn pending(&mut self) -> Result<(), String> {
        let scene = self.scene;
        let l = self;
        if scene.pending > 0 {
            let k = keys();
            let mut inputs = vec![OutputPointer { output_index: OWN as u32, ..l.coins[0].ptr }];
            if scene.pending == 2 {
                inputs.push(l.coins[2].ptr);
                l.coins[2].used = true;
            }
            let t = vtt(inputs, vec![out(foreign(2), 9, 0), out(k.external[1], 500_000, 0), out(k.external[0], 60_000, FUTURE)]);
            let h = tx_hash(&Transaction::ValueTransfer(t.clone()), 1);
            for (i, out) in t.body.outputs.iter().enumerate() {
                let ptr = OutputPointer { transaction_id: h, output_index: i as u32 };
                l.pool.insert(ptr, out.clone(), 1);
                if i > 0 {
                    l.coins.push(Coin { ptr, out: out.clone(), confirmed: false, used: false });
                }
            }
            let b = l.rpc.node.lock().unwrap().mine(1, block_of(vec![t]));
            l.rpc.block(&b);
        }
        if let Some(timeout) = scene.sent {
            let v = l.call("create_vtt", json!({"fee": 10, "outputs": [{"address": foreign(3).to_string(), "amount": "90000"}], "selected_utxos": [l.coins[0].ptr.to_string()]}))?;
            l.internal += 1;
            l.call("send_transaction", json!({"transaction": v["transaction"]}))?;
            l.coins[0].used |= timeout > 0;
        }
        Ok(())
    }
    fn with(&self, mut q: Value) -> Value {
        q["session_id"] = json!(self.session);
        q["wallet_id"] = json!(self.id);
        q
    }
    fn call(&self, method: &str, q: Value) -> Result<Value, String> {
        self.rpc.call(method, self.with(q.clone())).map_err(|e| format!("{method} {q}: {e:?}"))
    }
    /// All that is shown of the wallet.
    fn looks(&self) -> Result<Vec<Value>, String> {
        ["get_balance", "get_utxo_info", "get_transactions"]
            .iter()
            .map(|m| self.call(m, json!({})))
            .chain([true, false].map(|x| self.call("get_addresses", json!({"external": x}))))
            .collect()
    }
    fn allowed(&self, from: Option<PublicKeyHash>, selected: &[OutputPointer]) -> Vec<&Coin> {
        self.coins
            .iter()
            .filter(|c| !c.used && c.out.time_lock < FUTURE && (c.confirmed || self.scene.unconfirmed) && from.is_none_or(|f| f == c.out.pkh) && (selected.is_empty() || selected.contains(&c.ptr)))
            .collect()
    }
}

#[derive(Clone, Copy, Debug)]
enum Fee {
    Abs(u64),
    Rel(f64),
}
use Fee::*;
impl Fee {
    fn of(&self, weight: u64) -> u64 {
        match self {
            Abs(n) => *n,
            Rel(p) => (p * weight as f64) as u64,
        }
    }
}
fn fees() -> Vec<(Value, Option<&'static str>, Fee)> {
    vec![
        (json!(0), None, Abs(0)),
        (json!(1000), None, Abs(1000)),
        (json!("993"), Some("absolute"), Abs(993)),
        (json!({"absolute": "50000"}), None, Abs(50_000)),
        (json!({"absolute": 7}), None, Abs(7)),
        (json!({"relative": "1"}), None, Rel(1.0)),
        (json!({"relative": "37.5"}), Some("weighted"), Rel(37.5)),
        (json!({"relative": 0.001}), None, Rel(0.001)),
        (json!(100), Some("weighted"), Rel(100.0)),
        (json!({"absolute": "3"}), Some("weighted"), Rel(3.0)),
        (json!({"relative": "8.7"}), Some("absolute"), Abs(8)),
    ]
}
/// The fewest inputs, in this order, that pay for this; or nothing.
fn need(values: &[u64], pay: u64, fee: Fee, outs: u64, weight: impl Fn(u64, u64) -> u64, max: u64) -> Result<usize, &'static str> {
    let take = |amount: u64| {
        if amount == 0 {
            return Err("nothing to pay");
        }
        let mut sum = 0;
        values.iter().position(|v| {
            sum += v;
            sum >= amount
        }).map(|i| i + 1).ok_or("money")
    };
    let mut w = weight(1, outs + 1);
    if w > max {
        return Err("weight");
    }
    loop {
        let amount = pay.checked_add(fee.of(w)).ok_or("overflow")?;
        let n = take(amount)?;
        let new = weight(n as u64, outs + 1);
        if let Abs(_) = fee {
            let change = values[..n].iter().sum::<u64>() > amount;
            return if weight(n as u64, outs + u64::from(change)) > max { Err("weight") } else { Ok(n) };
        }
        if new > max {
            return Err("weight");
        }
        if new == w {
            return Ok(n);
        }
        w = new;
    }
}
/// Whether a payment has to be possible, in the order of the strategy.
fn possible(allowed: &[&Coin], strategy: &str, pay: u64, fee: Fee, outs: u64, weight: impl Fn(u64, u64) -> u64 + Copy, max: u64) -> Option<Result<usize, &'static str>> {
    let mut small: Vec<u64> = allowed.iter().map(|c| c.out.value).collect();
    small.sort_unstable();
    let big: Vec<u64> = small.iter().rev().copied().collect();
    let n = |v: &[u64]| need(v, pay, fee, outs, weight, max);
    match strategy {
        "big_first" => Some(n(&big)),
        "small_first" => Some(n(&small)),
        // In any order
        _ => match (n(&small), n(&big)) {
            (Ok(k), _) if weight(k as u64, outs + 1) <= max => Some(Ok(k)),
            (_, Err("weight")) if weight(1, outs + 1) <= max => None,
            (_, Err(e)) => Some(Err(e)),
            _ => None,
        },
    }
}
/// The inputs pay for it with no more of them than needed.
fn inputs<'a>(l: &'a Live, got: &[Input], allowed: &[&Coin], strategy: &str, amount: u64) -> Result<Vec<&'a Coin>, String> {
    let ptrs: Vec<OutputPointer> = got.iter().map(|i| *i.output_pointer()).collect();
    ensure!(ptrs.iter().collect::<BTreeSet<_>>().len() == ptrs.len(), "an input is used twice: {ptrs:?}");
    for p in &ptrs {
        ensure!(allowed.iter().any(|c| c.ptr == *p), "{p} may not be used: {:?}", l.coins);
    }
    let used: Vec<&Coin> = ptrs.iter().map(|p| l.coins.iter().find(|c| c.ptr == *p).unwrap()).collect();
    let mut v: Vec<u64> = used.iter().map(|c| c.out.value).collect();
    let sum: u64 = v.iter().sum();
    ensure!(v.iter().any(|x| sum - x < amount), "fewer inputs of {v:?} than these would pay {amount}");
    if strategy != "random" {
        let mut all: Vec<u64> = allowed.iter().map(|c| c.out.value).collect();
        all.sort_unstable();
        if strategy == "big_first" {
            all.reverse();
        }
        all.truncate(v.len());
        same!(v, all, "the values of the inputs, {strategy}");
        v.pop();
        ensure!(v.iter().sum::<u64>() < amount, "the last of {} inputs is not needed", got.len());
    }
    Ok(used)
}
fn to_inputs(v: &[Input]) -> Value {
    v.iter().map(|i| json!({"output_pointer": i.output_pointer().to_string()})).collect()
}
fn to_outputs(v: &[ValueTransferOutput]) -> Value {
    v.iter().map(|o| json!({"pkh": o.pkh.to_string(), "value": o.value.to_string(), "time_lock": o.time_lock})).collect()
}
fn epochs() -> EpochConstants {
    EpochConstants { checkpoint_zero_timestamp: ZERO as i64, checkpoints_period: PERIOD as u16, ..EpochConstants::default() }
}
fn valid(l: &Live, t: &Transaction) -> Result<u64, String> {
    let diff = UtxoDiff::new(&l.pool, 2);
    let mut sigs = vec![];
    let fee = match t {
        Transaction::ValueTransfer(v) => validate_vt_transaction(v, &diff, EPOCH, epochs(), &mut sigs, l.scene.max, Some(ProtocolVersion::V2_0)).map(|x| x.2),
        Transaction::DataRequest(d) => validate_dr_transaction(d, &diff, EPOCH, epochs(), &mut sigs, 0, 80_000, 125, &current_active_wips(), Some(ProtocolVersion::V2_0)).map(|x| x.2),
        _ => unreachable!(),
    }
    .map_err(|e| format!("a validator says: {e}"))?;
    verify_signatures(sigs, &mut VrfCtx::secp256k1().unwrap()).map_err(|e| format!("a validator says: {e}"))?;
    Ok(fee)
}
fn decoded(v: &Value) -> Result<Transaction, String> {
    let bytes = hex::decode(v["bytes"].as_str().ok_or("no bytes")?).map_err(|e| e.to_string())?;
    let t = Transaction::from_pb_bytes(&bytes).map_err(|e| format!("the bytes are no transaction: {e}"))?;
    same!(v["transaction_id"], hex::encode(t.versioned_hash(ProtocolVersion::V2_0)), "its hash");
    Ok(t)
}

fn payments(run: &mut Run) {
    let thorough = run.thorough();
    explore(run, "payments", |c| {
        let scenes = [
            Scene { unconfirmed: false, pending: 0, sent: None, max: 20_000 },
            Scene { unconfirmed: false, pending: 2, sent: Some(1_000_000), max: 20_000 },
            Scene { unconfirmed: true, pending: 1, sent: Some(1_000_000), max: 20_000 },
            Scene { unconfirmed: false, pending: 0, sent: None, max: 133 * 2 + 360 * 2 },
            Scene { unconfirmed: true, pending: 2, sent: Some(0), max: 133 * 3 + 360 * 2 - 1 },
            Scene { unconfirmed: false, pending: 1, sent: None, max: 20_000 },
            Scene { unconfirmed: true, pending: 2, sent: None, max: 20_000 },
        ];
        let scene = scenes[c.pick(if thorough { 7 } else { 5 })];
        let k = keys();
        let f = foreign(4);
        let menus = [
            vec![out(f, 1, 0)],
            vec![out(f, 250_000, 0)],
            vec![out(f, 100_000, 99), out(k.external[0], 150_000, FUTURE)],
            vec![out(f, 60_000, 0), out(f, 70_000, 0), out(k.internal[1], 80_000, 1)],
            vec![out(f, 489_000, 0)],
            vec![out(f, 740_000, 0)],
            vec![],
            vec![out(f, u64::MAX, 0)],
            vec![out(f, 349_993, 0)],
            vec![out(f, u64::MAX, 0), out(f, 1, 0)],
        ];
        let outs = menus[c.pick(if thorough { 10 } else { 8 })].clone();
        let all = fees();
        let (fee_json, fee_type, fee) = if thorough { all[c.pick(11)].clone() } else { all[c.of(&[0, 1, 2, 3, 6, 8, 9, 10])].clone() };
        let menu: [(Option<Value>, &str, Option<PublicKeyHash>); 9] = [
            (None, "random", None),
            (Some(json!("big_first")), "big_first", None),
            (Some(json!("small_first")), "small_first", None),
            (Some(json!({"strategy": "random", "from": k.external[0].to_string()})), "random", Some(k.external[0])),
            (Some(json!({"strategy": "small_first", "from": k.external[1].to_string()})), "small_first", Some(k.external[1])),
            (Some(json!({"strategy": "big_first", "from": null})), "big_first", None),
            (Some(json!({"strategy": "big_first", "from": k.external[0].to_string()})), "big_first", Some(k.external[0])),
            (Some(json!("random")), "random", None),
            (Some(json!({"strategy": "big_first", "from": foreign(1).to_string()})), "big_first", Some(foreign(1))),
        ];
        let (strategy_json, strategy, from) = menu[c.pick(if thorough { 9 } else { 5 })].clone();
        let l = Live::new(scene)?;
        let picks: [Option<Vec<usize>>; 6] = [None, Some(vec![1, 3]), Some(vec![0, 2, 4, 6]), Some(vec![]), Some(vec![4]), Some(vec![2, 5, 99])];
        let picked = picks[c.pick(if thorough { 6 } else { 3 })].clone();
        let unknown = OutputPointer { transaction_id: Hash::SHA256([1; 32]), output_index: 0 };
        let selected: Vec<OutputPointer> = picked.iter().flatten().map(|i| l.coins.get(*i).map_or(unknown, |c| c.ptr)).collect();
        let preview = c.flag();
        let mut q = json!({"fee": fee_json, "outputs": outs.iter().enumerate().map(|(i, o)| {
            let amount = if i % 2 == 0 || o.value > 1 << 60 { json!(o.value.to_string()) } else { json!(o.value) };
            json!({"address": o.pkh.to_string(), "amount": amount, "time_lock": (o.time_lock > 0).then_some(o.time_lock)})
        }).collect::<Vec<_>>()});
        if let Some(t) = fee_type {
            q["fee_type"] = json!(t);
        }
        if let Some(s) = strategy_json {
            q["utxo_strategy"] = s;
        }
        if picked.is_some() {
            q["selected_utxos"] = selected.iter().map(|p| json!(p.to_string())).collect();
        }
        if preview {
            q["preview"] = json!(true);
        } else if from.is_some() {
            q["preview"] = json!(false);
        }
        c.op(|| format!("{scene:?}: create_vtt {q}"));
        let before = l.looks()?;
        let written = l.rpc.db.log().len();
        let allowed = l.allowed(from, &selected);
        let pay = outs.iter().try_fold(0u64, |a, o| a.checked_add(o.value));
        let n = outs.len() as u64;
        let weight = |i: u64, o: u64| 133 * i + 360 * o;
        let want = match pay {
            None => Some(Err("overflow")),
            Some(p) => possible(&allowed, strategy, p, fee, n, weight, u64::from(scene.max)),
        };
        let got = l.rpc.call("create_vtt", l.with(q.clone()));
        if let Some(w) = want {
            ensure!(got.is_ok() == w.is_ok(), "expected {w:?}, not {got:?}, of {:?}", allowed.iter().map(|c| c.out.value).collect::<Vec<_>>());
        }
        let mut after = l.looks()?;
        let Ok(v) = got else {
            same!(after, before, "the wallet after a refusal");
            same!(l.rpc.db.log().len(), written, "writes of a refusal");
            c.outcome(want.map_or("refused", |w| w.unwrap_err()));
            return Ok(());
        };
        let t = decoded(&v)?;
        let Transaction::ValueTransfer(x) = &t else { return Err(format!("{t:?}")) };
        let cost = fee.of(weight(x.body.inputs.len() as u64, n + 1));
        let amount = pay.unwrap() + cost;
        let used = inputs(&l, &x.body.inputs, &allowed, strategy, amount)?;
        let change = used.iter().map(|c| c.out.value).sum::<u64>() - amount;
        let mut expected = outs.clone();
        if change > 0 {
            expected.push(out(k.internal[l.internal], change, 0));
        }
        same!(x.body.outputs, expected, "outputs");
        same!(valid(&l, &t)?, cost, "fee");
        let total = weight(x.body.inputs.len() as u64, expected.len() as u64);
        let m = &v["metadata"];
        same!(m["fee"].as_u64().or_else(|| m["fee"].as_str()?.parse().ok()), Some(cost), "the fee that is shown, {}", m["fee"]);
        same!(m["weight"], total.to_string(), "the weight that is shown");
        same!(m["inputs"], dust(&used.iter().map(|c| c.out.clone()).collect::<Vec<_>>()), "the inputs that are shown");
        same!(m["outputs"], dust(&outs), "the outputs that are shown");
        same!(v["transaction"], json!({"ValueTransfer": {"body": {"inputs": to_inputs(&x.body.inputs), "outputs": to_outputs(&x.body.outputs)}, "signatures": x.signatures}}), "the transaction");
        if preview {
            same!(after, before, "the wallet after a preview");
            same!(l.rpc.db.log().len(), written, "writes of a preview");
        } else {
            let a = &mut after[4];
            same!(a["total"], l.internal + 1, "internal addresses");
            same!(a["addresses"][0]["address"], k.internal[l.internal].to_string(), "the address for the change");
            a["total"] = json!(l.internal);
            a["addresses"].as_array_mut().unwrap().remove(0);
            same!(after, before, "the rest of the wallet");
        }
        // The same once more
        let again = l.rpc.call("create_vtt", l.with(q)).map_err(|e| format!("once more: {e:?}"))?;
        let Transaction::ValueTransfer(y) = decoded(&again)? else { return Err("a transaction of another kind".into()) };
        if change > 0 {
            same!(y.body.outputs.last().map(|o| o.pkh), Some(k.internal[l.internal + usize::from(!preview)]), "the address for the change, once more");
        }
        c.outcome(if change > 0 { "paid with change" } else { "paid exactly" });
        Ok(())
    });
}

fn rad() -> Value {
    json!({"time_lock": 0, "retrieve": [{"kind": "RNG", "url": "", "script": [128]}], "aggregate": {"filters": [], "reducer": 11}, "tally": {"filters": [{"op": 8, "args": []}], "reducer": 11}})
}
fn requests(run: &mut Run) {
    let thorough = run.thorough();
    explore(run, "requests", |c| {
        let scenes = [
            Scene { unconfirmed: false, pending: 0, sent: None, max: 20_000 },
            Scene { unconfirmed: false, pending: 2, sent: Some(1_000_000), max: 20_000 },
            Scene { unconfirmed: true, pending: 1, sent: Some(0), max: 20_000 },
        ];
        let scene = c.of(&scenes);
        let l = Live::new(scene)?;
        let witnesses = c.of(&[1u16, 3, 120, 0, 126]);
        let reward = c.of(if thorough { &[0u64, 1, 1_000, 150_000, u64::MAX, 2] } else { &[1, 1_000, 150_000, u64::MAX] });
        let each = c.of(&[0u64, 2, 5_000]);
        let collateral = c.of(if thorough { &[0u64, 100, 125_000, 125_001, 125] } else { &[0, 125, 125_001] });
        let consensus = c.of(&[51u32, 99, 50, 100]);
        let (fee_json, fee_type, fee) = {
            let all = fees();
            if thorough { all[c.pick(11)].clone() } else { all[c.of(&[0, 1, 6, 10])].clone() }
        };
        let preview = c.flag();
        let dr = json!({"data_request": rad(), "witness_reward": reward.to_string(), "witnesses": witnesses.to_string(), "commit_and_reveal_fee": each.to_string(), "min_consensus_percentage": consensus.to_string(), "collateral": collateral.to_string()});
        let mut q = json!({"request": dr, "fee": fee_json, "preview": preview});
        if let Some(t) = fee_type {
            q["fee_type"] = json!(t);
        }
        c.op(|| format!("{scene:?}: create_data_request {q}"));
        let before = l.looks()?;
        let written = l.rpc.db.log().len();
        let request: DataRequestOutput = DataRequestOutput { data_request: serde_json::from_value(rad()).unwrap(), witness_reward: reward, witnesses, commit_and_reveal_fee: each, min_consensus_percentage: consensus, collateral };
        // As of the rules for requests
        let sane = witnesses > 0 && reward > 0 && (51..100).contains(&consensus);
        let sane = sane && u128::from(collateral) <= u128::from(reward) * 125;
        let pay = (|| (each.checked_mul(2)?.checked_add(reward)?).checked_mul(u64::from(witnesses)))();
        let n_fixed = u64::from(request.weight() + request.extra_weight());
        let weight = |i: u64, o: u64| n_fixed + 133 * i + 36 * o;
        let allowed = l.allowed(None, &[]);
        let want = match pay {
            Some(p) if sane => possible(&allowed, "random", p, fee, 0, weight, 80_000),
            Some(_) => Some(Err("malformed")),
            None => Some(Err("overflow")),
        };
        let got = l.rpc.call("create_data_request", l.with(q));
        if let Some(w) = want {
            ensure!(got.is_ok() == w.is_ok(), "expected {w:?}, not {got:?}");
        }
        let after = l.looks()?;
        same!(after, before, "the wallet after a request was created");
        same!(l.rpc.db.log().len(), written, "writes");
        let Ok(v) = got else {
            c.outcome(want.map_or("refused", |w| w.unwrap_err()));
            return Ok(());
        };
        let t = decoded(&v)?;
        let Transaction::DataRequest(x) = &t else { return Err(format!("{t:?}")) };
        same!(x.body.dr_output, request, "request");
        let cost = fee.of(weight(x.body.inputs.len() as u64, 1));
        let amount = pay.unwrap() + cost;
        let used = inputs(&l, &x.body.inputs, &allowed, "random", amount)?;
        let change = used.iter().map(|c| c.out.value).sum::<u64>() - amount;
        let expected: Vec<_> = (change > 0).then(|| out(used[0].out.pkh, change, 0)).into_iter().collect();
        same!(x.body.outputs, expected, "outputs");
        same!(valid(&l, &t)?, cost, "fee");
        same!(v["fee"].as_u64().or_else(|| v["fee"].as_str()?.parse().ok()), Some(cost), "the fee that is shown, {}", v["fee"]);
        same!(v["weight"], weight(x.body.inputs.len() as u64, expected.len() as u64).to_string(), "the weight that is shown");
        same!(v["inputs"], dust(&used.iter().map(|c| c.out.clone()).collect::<Vec<_>>()), "the inputs that are shown");
        let d = json!({"DataRequest": {"body": {"inputs": to_inputs(&x.body.inputs), "outputs": to_outputs(&x.body.outputs), "dr_output": dr}, "signatures": x.signatures}});
        let mut shown = v["transaction"].clone();
        let (a, b) = (shown["DataRequest"]["body"]["dr_output"]["data_request"].take(), rad());
        same!(serde_json::from_value::<RADRequest>(a).map_err(|e| e.to_string()), Ok(serde_json::from_value(b).unwrap()), "the sources");
        let mut d = d;
        d["DataRequest"]["body"]["dr_output"]["data_request"].take();
        same!(shown, d, "the transaction");
        c.outcome(if change > 0 { "requested with change" } else { "requested exactly" });
        Ok(())
    });
}


/// The wallet pays, time and again.
#[derive(Clone, Copy, Debug)]
enum Act {
    /// So much to someone else, the biggest coins first or not, maybe with no intention to pay.
    Pay(u64, bool, bool),
    /// The same to itself.
    Own(u64),
    /// One of the payments made so far is sent.
    Send(usize),
    /// It is, but the node is gone.
    SendLost(usize),
    /// What was sent is in a block.
    Mine,
    /// The blocks are confirmed.
    Confirm,
    /// The wallet starts again, and forgets what it has sent.
    Restart,
}
struct Purse {
    l: Live,
    /// Payments, and whether their change has an address of theirs alone.
    made: Vec<(VTTransaction, Value, bool)>,
    sent: Vec<VTTransaction>,
    mined: Vec<Hash>,
    epoch: u32,
    unconfirmed_blocks: Vec<String>,
    given: BTreeSet<String>,
}
fn few() -> Vec<ValueTransferOutput> {
    let k = keys();
    vec![out(k.external[0], 100_000, 0), out(k.external[1], 250_000, 0), out(k.internal[0], 40_000, 0), out(k.external[0], 1_000_000, FUTURE)]
}
fn few_template() -> &'static (Node, Vec<Vec<rocksdb::Op>>, String, Hash) {
    static T: OnceLock<(Node, Vec<Vec<rocksdb::Op>>, String, Hash)> = OnceLock::new();
    T.get_or_init(|| read(few()))
}
impl Purse {
    fn new(scene: Scene) -> Result<Purse, String> {
        let l = Live::from(scene, few_template(), few())?;
        Ok(Purse { l, made: vec![], sent: vec![], mined: vec![], epoch: 1, unconfirmed_blocks: vec![], given: [keys().internal[0].to_string()].into() })
    }
    fn mine(&self, pkh: PublicKeyHash) -> bool {
        keys().external[..3].contains(&pkh) || keys().internal.contains(&pkh)
    }
    fn can(&self) -> Vec<Act> {
        let mut v = vec![];
        if self.made.len() < 3 {
            v.extend([Pay(30_000, false, false), Pay(120_000, true, false), Pay(350_000, true, false), Pay(120_000, true, true), Own(60_000), Pay(40_000, false, false)]);
        }
        for i in 0..self.made.len() {
            v.extend([Send(i), SendLost(i)]);
        }
        if self.sent.iter().any(|t| !self.mined.contains(&t.versioned_hash(ProtocolVersion::V2_0))) {
            v.push(Mine);
        }
        if !self.unconfirmed_blocks.is_empty() {
            v.push(Confirm);
        }
        v.push(Restart);
        v
    }
    fn step(&mut self, a: &Act) -> Result<(), String> {
        let l = &mut self.l;
        match *a {
            Pay(n, ..) | Own(n) => {
                let (big, preview, to) = match *a {
                    Pay(_, big, preview) => (big, preview, foreign(5)),
                    _ => (true, false, keys().external[1]),
                };
                let strategy = if big { "big_first" } else { "small_first" };
                let allowed: Vec<&Coin> = l.allowed(None, &[]);
                let weight = |i: u64, o: u64| 133 * i + 360 * o;
                let want = possible(&allowed, strategy, n, Abs(100), 1, weight, 20_000).unwrap();
                let got = l.rpc.call("create_vtt", l.with(json!({"fee": 100, "outputs": [{"address": to.to_string(), "amount": n.to_string()}], "utxo_strategy": strategy, "preview": preview})));
                ensure!(got.is_ok() == want.is_ok(), "{a:?}: expected {want:?}, not {got:?}");
                let Ok(v) = got else { return Ok(()) };
                let Transaction::ValueTransfer(t) = decoded(&v)? else { return Err("a transaction of another kind".into()) };
                let used = inputs(l, &t.body.inputs, &allowed, strategy, n + 100)?;
                let change = used.iter().map(|c| c.out.value).sum::<u64>() - n - 100;
                same!(t.body.outputs[0], out(to, n, 0), "what is paid");
                if change > 0 {
                    same!(t.body.outputs.len(), 2, "outputs");
                    let x = &t.body.outputs[1];
                    same!((x.value, x.time_lock), (change, 0), "change");
                    ensure!(keys().internal.contains(&x.pkh), "the change goes to {}", x.pkh);
                    ensure!(!self.given.contains(&x.pkh.to_string()), "the change goes to {}, where other change went", x.pkh);
                    if !preview {
                        self.given.insert(x.pkh.to_string());
                    }
                } else {
                    same!(t.body.outputs.len(), 1, "outputs");
                }
                valid(l, &Transaction::ValueTransfer(t.clone()))?;
                self.made.push((t, v["transaction"].clone(), !preview));
            }
            Send(i) | SendLost(i) => {
                let (t, v, _) = self.made[i].clone();
                let lost = matches!(a, SendLost(_));
                let before = l.looks()?;
                {
                    let mut n = l.rpc.node.lock().unwrap();
                    n.lost_from = lost.then_some(n.requests);
                    n.inventory.clear();
                }
                let r = l.rpc.call("send_transaction", l.with(json!({"transaction": v})));
                let got = {
                    let mut n = l.rpc.node.lock().unwrap();
                    n.lost_from = None;
                    std::mem::take(&mut n.inventory)
                };
                ensure!(r.is_ok() != lost, "{a:?}: {r:?}");
                if lost {
                    same!(l.looks()?, before, "the wallet after a payment could not be sent");
                    return Ok(());
                }
                same!(got, vec![json!({"transaction": {"ValueTransfer": t}})], "what the node is sent");
                for c in &mut l.coins {
                    c.used |= l.scene.sent != Some(0) && t.body.inputs.iter().any(|i| *i.output_pointer() == c.ptr);
                }
                if let Some(x) = t.body.outputs.get(1) {
                    self.given.insert(x.pkh.to_string());
                }
                if !self.sent.contains(&t) {
                    self.sent.push(t);
                }
            }
            Mine => {
                let mut v = vec![];
                for t in &self.sent {
                    let h = t.versioned_hash(ProtocolVersion::V2_0);
                    if self.mined.contains(&h) || !t.body.inputs.iter().all(|i| l.coins.iter().any(|c| c.ptr == *i.output_pointer())) {
                        continue;
                    }
                    l.coins.retain(|c| !t.body.inputs.iter().any(|i| *i.output_pointer() == c.ptr));
                    for (i, o) in t.body.outputs.iter().enumerate() {
                        let ptr = OutputPointer { transaction_id: h, output_index: i as u32 };
                        l.pool.insert(ptr, o.clone(), self.epoch);
                        if keys().external.contains(&o.pkh) || keys().internal.contains(&o.pkh) {
                            l.coins.push(Coin { ptr, out: o.clone(), confirmed: false, used: false });
                        }
                    }
                    self.mined.push(h);
                    v.push(t.clone());
                }
                let b = l.rpc.node.lock().unwrap().mine(self.epoch, block_of(v));
                self.epoch += 1;
                self.unconfirmed_blocks.push(block_hash(&b).to_string());
                l.rpc.block(&b);
            }
            Confirm => {
                {
                    let mut n = l.rpc.node.lock().unwrap();
                    n.confirmed = n.chain.len();
                }
                l.rpc.superblock(&self.unconfirmed_blocks);
                self.unconfirmed_blocks.clear();
                l.coins.iter_mut().for_each(|c| c.confirmed = true);
            }
            Restart => {
                let h = few_template().3;
                let db = Arc::new(rocksdb::DB::from_log(&l.rpc.db.log()));
                l.rpc = Rpc::start(l.rpc.node.clone(), db, wallet_params(&l.scene, h));
                let v = l.rpc.call("unlock_wallet", json!({"wallet_id": l.id, "password": PASSWORD})).map_err(|e| format!("unlock: {e:?}"))?;
                l.session = v["session_id"].as_str().unwrap().into();
                l.coins.iter_mut().for_each(|c| c.used = false);
            }
        }
        self.check()
    }
    /// What can be spent, to the last nanowit.
    fn check(&self) -> Result<(), String> {
        let l = &self.l;
        let all: u64 = l.allowed(None, &[]).iter().map(|c| c.out.value).sum();
        for (amount, ok) in [(all, all > 0), (all + 1, false)] {
            let r = l.rpc.call("create_vtt", l.with(json!({"fee": "0", "outputs": [{"address": foreign(6).to_string(), "amount": amount}], "preview": true})));
            ensure!(r.is_ok() == ok, "paying {amount} of {all}: {r:?}");
        }
        let got: BTreeSet<String> = l.call("get_utxo_info", json!({}))?.as_object().unwrap().keys().cloned().collect();
        same!(got, l.coins.iter().map(|c| c.ptr.to_string()).collect::<BTreeSet<_>>(), "unspent outputs");
        Ok(())
    }
    fn key(&self) -> u128 {
        let l = &self.l;
        let mut coins: Vec<_> = l.coins.iter().map(|c| format!("{c:?}")).collect();
        coins.sort();
        let made: Vec<_> = self.made.iter().map(|(t, ..)| t.versioned_hash(ProtocolVersion::V2_0).to_string()).collect();
        let sent: BTreeSet<_> = self.sent.iter().map(|t| t.versioned_hash(ProtocolVersion::V2_0).to_string()).collect();
        fp(&(coins, made, sent, self.unconfirmed_blocks.len(), &self.given))
    }
}
use Act::*;
#[derive(Clone)]
struct H {
    acts: Vec<Act>,
    can: Vec<Act>,
    key: u128,
}
struct Spending(Scene);
impl Spending {
    fn play(&self, acts: &[Act]) -> Result<H, String> {
        let mut p = Purse::new(self.0)?;
        for a in acts {
            p.step(a)?;
        }
        Ok(H { acts: acts.to_vec(), can: p.can(), key: p.key() })
    }
}
impl System for Spending {
    type S = H;
    type A = Act;
    fn init(&self) -> Vec<H> {
        vec![self.play(&[]).unwrap()]
    }
    fn actions(&self, s: &H) -> Vec<Act> {
        s.can.clone()
    }
    fn step(&self, s: &mut H, a: &Act) -> Result<(), String> {
        let mut acts = s.acts.clone();
        acts.push(*a);
        *s = self.play(&acts)?;
        Ok(())
    }
    fn key(&self, s: &H) -> u128 {
        s.key
    }
}

pub fn c42(run: &mut Run) {
    payments(run);
    requests(run);
    let depth = run.pick(4, 5);
    for (name, unconfirmed, sent) in [("spending", false, None), ("spending at once", true, None), ("spending again", false, Some(0))] {
        bfs(run, name, &Spending(Scene { unconfirmed, pending: 0, sent, max: 20_000 }), depth, 400_000);
    }
}
