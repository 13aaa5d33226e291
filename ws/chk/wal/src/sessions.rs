//! C43: what a session may do, and for how long.
use crate::{rpc::*, world::*};
use mc::*;
use serde_json::{Value, json};
use std::{
    sync::{Arc, Mutex, OnceLock},
};
use witnet_data_structures::{chain::*, transaction::*};

const PASSWORDS: [&str; 2] = ["the first password", "another password"];
const WALLETS: usize = 2;
/// What a block pays each of them.
const PAY: u64 = 1_000_000;

fn key_of(w: usize) -> &'static Keys {
    static K: OnceLock<Vec<Keys>> = OnceLock::new();
    &K.get_or_init(|| vec![make_keys(b"the first wallet of the sessions"), make_keys(b"the other wallet of the sessions")])[w]
}
/// The wallets' keys as a user imports them: encrypted, in bech32.
fn import(w: usize) -> &'static str {
    static E: OnceLock<Vec<String>> = OnceLock::new();
    &E.get_or_init(|| (0..WALLETS).map(|w| encrypt("xprv", &key_of(w).xprv, "backup")).collect())[w]
}
pub fn encrypt(hrp: &str, s: &str, password: &str) -> String {
    use bech32::ToBase32;
    bech32::encode(hrp, witnet_wallet::crypto::encrypt_cbc(s.as_bytes(), password.as_bytes()).unwrap().to_base32()).unwrap()
}
fn pay(to: PublicKeyHash, value: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: to, value, time_lock: 0 }
}
/// A block that pays one to each wallet.
fn payments(n: u64) -> BlockTransactions {
    let mut outputs: Vec<_> = (0..WALLETS).map(|w| pay(key_of(w).external[0], PAY)).collect();
    outputs.push(pay(foreign(0), n + 1));
    BlockTransactions { value_transfer_txns: vec![VTTransaction::new(VTTransactionBody::new(vec![], outputs), vec![])], ..Default::default() }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Act {
    Unlock(usize, usize),
    Lock(usize, usize),
    Close(usize),
    Refresh(usize),
    Delete(usize, usize),
    Create(usize, usize),
    Resync(usize, usize),
    Subscribe(usize),
    Unsubscribe(usize),
    /// Half of the time a session lasts goes by.
    Tick,
    /// A block pays both wallets.
    Block,
    /// Blocks pay both wallets, and nobody tells them.
    Missed,
    Shutdown(Option<usize>),
}
use Act::*;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Session {
    wallet: usize,
    open: bool,
    live: bool,
    deadline: u32,
    /// Extended already, and until when that counts.
    extended: Option<u32>,
    /// The wallet hears of new blocks.
    hears: bool,
    /// Nothing is said about what it hears: another session has opened the wallet, or it was deleted.
    stale: bool,
    subscribed: bool,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Spec {
    /// The password of each wallet there is, in the order they are listed.
    wallets: Vec<(usize, usize)>,
    sessions: Vec<Session>,
    now: u32,
    blocks: u64,
    /// Nobody knows of the last blocks yet.
    missed: bool,
}
impl Spec {
    fn may(&self, s: usize, w: usize) -> bool {
        let s = &self.sessions[s];
        s.live && s.open && s.wallet == w
    }
    fn password(&self, w: usize) -> Option<usize> {
        self.wallets.iter().find(|x| x.0 == w).map(|x| x.1)
    }
}

struct Live {
    rpc: Rpc,
    ids: Vec<String>,
    sessions: Vec<String>,
    spec: Spec,
    epoch: u32,
}

pub fn err_is(r: &Result<Value, jsonrpc_core::Error>, codes: &[i64], what: &str) -> Result<(), String> {
    match r {
        Ok(v) => Err(format!("{what} succeeded: {v}")),
        Err(e) if codes.contains(&code(e)) => Ok(()),
        Err(e) => Err(format!("{what} failed with {e:?}, not {codes:?}")),
    }
}

impl Live {
    fn new() -> Result<Live, String> {
        let mut n = Node::default();
        let g = n.mine(0, payments(0));
        n.confirmed = 1;
        let params = params(false, 1, 1_000_000, block_hash(&g));
        let spec = Spec { blocks: 1, ..Default::default() };
        // Both wallets are made once; everything else begins with what that left on disk
        static MADE: OnceLock<Result<(Vec<Vec<rocksdb::Op>>, Vec<String>, Spec), String>> = OnceLock::new();
        let node = Arc::new(Mutex::new(n));
        let (log, ids, spec) = MADE
            .get_or_init(|| {
                let rpc = Rpc::start(node.clone(), Arc::new(rocksdb::DB::in_memory()), params.clone());
                let mut l = Live { rpc, ids: vec![], sessions: vec![], spec, epoch: 0 };
                for w in 0..WALLETS {
                    l.create(w, w)?;
                }
                Ok((l.rpc.db.log(), l.ids.clone(), l.spec.clone()))
            })
            .clone()?;
        let rpc = Rpc::start(node, Arc::new(rocksdb::DB::from_log(&log)), params);
        Ok(Live { rpc, ids, sessions: vec![], spec, epoch: 0 })
    }
    fn create(&mut self, w: usize, p: usize) -> Result<(), String> {
        let r = self.rpc.call("create_wallet", json!({"seed_source": "xprv", "seed_data": import(w), "backup_password": "backup", "password": PASSWORDS[p]}));
        if self.spec.password(w).is_some() {
            return err_is(&r, &[409], "creating a wallet that is there");
        }
        let id = r.map_err(|e| format!("create: {e:?}"))?["wallet_id"].as_str().unwrap().to_string();
        if self.ids.len() == w {
            self.ids.push(id);
        } else {
            ensure!(self.ids[w] == id, "the wallet made from the same key again has another id");
        }
        self.spec.wallets.push((w, p));
        Ok(())
    }
    fn step(&mut self, a: Act) -> Result<(), String> {
        let id = |s: usize| self.sessions[s].clone();
        match a {
            Create(w, p) => self.create(w, p)?,
            Unlock(w, p) => {
                let r = self.rpc.call("unlock_wallet", json!({"wallet_id": self.ids[w], "password": PASSWORDS[p]}));
                if self.spec.password(w) != Some(p) {
                    return err_is(&r, &[400], "unlocking with a wrong password, or a wallet that is not there,");
                }
                let v = r.map_err(|e| format!("unlock: {e:?}"))?;
                let s = v["session_id"].as_str().unwrap().to_string();
                ensure!(!self.sessions.contains(&s), "two sessions have the id {s}");
                same!(v["session_expiration_secs"], EXPIRES.as_secs(), "how long the session lasts");
                self.sessions.push(s);
                for s in self.spec.sessions.iter_mut().filter(|s| s.wallet == w) {
                    s.stale = true;
                }
                self.spec.sessions.push(Session { wallet: w, open: true, live: true, deadline: self.spec.now + 2, hears: true, ..Default::default() });
            }
            Lock(s, w) => {
                let r = self.rpc.call("lock_wallet", json!({"session_id": id(s), "wallet_id": self.ids[w]}));
                if !self.spec.sessions[s].live {
                    return err_is(&r, &[401], "locking a wallet in a session that is over");
                }
                if !self.spec.may(s, w) {
                    // Whether it is refused does not matter as long as nothing happens
                    return Ok(());
                }
                r.map_err(|e| format!("lock: {e:?}"))?;
                let x = &mut self.spec.sessions[s];
                x.open = false;
                x.hears = false;
            }
            Delete(s, w) => {
                let r = self.rpc.call("delete_wallet", json!({"session_id": id(s), "wallet_id": self.ids[w]}));
                if !self.spec.may(s, w) {
                    return err_is(&r, &[401, 402], "deleting a wallet that is not open");
                }
                if self.spec.password(w).is_some() {
                    r.map_err(|e| format!("delete: {e:?}"))?;
                }
                self.spec.wallets.retain(|x| x.0 != w);
                for s in self.spec.sessions.iter_mut().filter(|s| s.wallet == w) {
                    s.stale = true;
                }
                let x = &mut self.spec.sessions[s];
                x.open = false;
                x.hears = false;
            }
            Close(s) => {
                let r = self.rpc.call("close_session", json!({"session_id": id(s)}));
                if !self.spec.sessions[s].live {
                    return err_is(&r, &[401], "closing a session that is over");
                }
                r.map_err(|e| format!("close: {e:?}"))?;
                self.over(s);
            }
            Refresh(s) => {
                let r = self.rpc.call("refresh_session", json!({"session_id": id(s)}));
                let now = self.spec.now;
                let x = &mut self.spec.sessions[s];
                if !x.live {
                    return err_is(&r, &[401], "refreshing a session that is over");
                }
                let v = r.map_err(|e| format!("refresh: {e:?}"))?;
                // Once, until the time it had before is over
                same!(v["success"], x.extended.is_none(), "whether the session was extended");
                if x.extended.is_none() {
                    x.extended = Some(x.deadline);
                    x.deadline = now + 2;
                }
            }
            Resync(s, w) => {
                let r = self.rpc.call("resync_wallet", json!({"session_id": id(s), "wallet_id": self.ids[w]}));
                if !self.spec.may(s, w) {
                    return err_is(&r, &[401, 402], "synchronizing a wallet that is not open");
                }
                same!(r.map_err(|e| format!("resync: {e:?}"))?["success"], true, "resync");
            }
            Subscribe(s) => {
                let r = self.rpc.subscribe(&id(s));
                if !self.spec.sessions[s].live {
                    return err_is(&r.map(|_| Value::Null), &[401], "subscribing in a session that is over");
                }
                r.map_err(|e| format!("subscribe: {e:?}"))?;
                self.spec.sessions[s].subscribed = true;
                let n = self.rpc.notified(&id(s));
                ensure!(n.is_empty() != self.spec.sessions[s].open, "on subscribing, session {s} is told {n:?}");
                self.check_notes(s, &n)?;
            }
            Unsubscribe(s) => {
                let r = self.rpc.unsubscribe(&id(s));
                if !self.spec.sessions[s].live {
                    return err_is(&r, &[401], "unsubscribing in a session that is over");
                }
                r.map_err(|e| format!("unsubscribe: {e:?}"))?;
                self.spec.sessions[s].subscribed = false;
            }
            Tick => {
                self.rpc.advance(EXPIRES / 2);
                self.spec.now += 1;
                for s in 0..self.spec.sessions.len() {
                    let now = self.spec.now;
                    let x = &mut self.spec.sessions[s];
                    if x.extended.is_some_and(|t| t <= now) {
                        x.extended = None;
                    }
                    if x.live && x.deadline <= now {
                        self.over(s);
                    }
                }
            }
            Block => {
                self.epoch += 1;
                let (b, h) = {
                    let mut n = self.rpc.node.lock().unwrap();
                    let b = n.mine(self.epoch, payments(self.epoch.into()));
                    n.confirmed = n.chain.len();
                    let h = block_hash(&b).to_string();
                    (b, h)
                };
                self.spec.blocks += 1;
                self.spec.missed = false;
                self.rpc.block(&b);
                self.rpc.superblock(&[h]);
                for s in 0..self.sessions.len() {
                    let n = self.rpc.notified(&self.sessions[s]);
                    let x = &self.spec.sessions[s];
                    if !x.stale {
                        ensure!(n.is_empty() != (x.subscribed && x.hears && x.live), "of a new block, session {s} is told {n:?}");
                    }
                    self.check_notes(s, &n)?;
                    if let (false, Some(n)) = (x.stale, n.last()) {
                        same!(n["status"]["account"]["balance"]["unconfirmed"]["available"], (self.spec.blocks * PAY).to_string(), "the balance session {s} is told of");
                    }
                }
            }
            Missed => {
                let mut n = self.rpc.node.lock().unwrap();
                for _ in 0..5 {
                    self.epoch += 1;
                    n.mine(self.epoch, payments(self.epoch.into()));
                }
                n.confirmed = n.chain.len();
                self.spec.blocks += 5;
                self.spec.missed = true;
            }
            Shutdown(s) => {
                let p = s.map_or(json!({}), |s| json!({"session_id": id(s)}));
                let r = self.rpc.call("shutdown", p);
                let may = match s {
                    Some(s) => self.spec.sessions[s].live,
                    None => !self.spec.sessions.iter().any(|s| s.live),
                };
                if !may {
                    return err_is(&r, &[401], "a shutdown while there are sessions");
                }
                r.map_err(|e| format!("shutdown: {e:?}"))?;
            }
        }
        Ok(())
    }
    /// Right after a request that was in order.
    fn probe_after(&self, method: &str) -> Result<(), String> {
        let b = self.rpc.call("get_balance", json!({"session_id": self.sessions[0], "wallet_id": self.ids[0]}));
        same!(b.is_ok(), !["lock_wallet", "delete_wallet", "close_session"].contains(&method), "whether the session has its wallet after {method}");
        Ok(())
    }
    fn over(&mut self, s: usize) {
        let x = &mut self.spec.sessions[s];
        x.live = false;
        x.subscribed = false;
        x.extended = None;
    }
    /// A session is told of its own wallet only, and only while it is subscribed.
    fn check_notes(&self, s: usize, notes: &[Value]) -> Result<(), String> {
        let x = &self.spec.sessions[s];
        ensure!(notes.is_empty() || (x.live && x.subscribed), "session {s}, which is not subscribed, is told {notes:?}");
        for n in notes {
            same!(n["status"]["session"], self.sessions[s], "the session of a notification");
            same!(n["status"]["wallet"]["id"], self.ids[x.wallet], "the wallet of a notification");
        }
        Ok(())
    }
    /// What each session may see and do now.
    fn probe(&self) -> Result<(), String> {
        let infos = self.rpc.call("get_wallet_infos", Value::Null).map_err(|e| format!("infos: {e:?}"))?;
        let ids: Vec<String> = infos["infos"].as_array().unwrap().iter().map(|i| i["id"].as_str().unwrap().to_string()).collect();
        let spec: Vec<String> = self.spec.wallets.iter().map(|(w, _)| self.ids[*w].clone()).collect();
        same!(ids, spec, "the wallets that are listed");
        for s in 0..self.sessions.len() {
            for w in 0..WALLETS {
                let r = self.rpc.call("get_balance", json!({"session_id": self.sessions[s], "wallet_id": self.ids[w]}));
                if !self.spec.may(s, w) {
                    err_is(&r, &[if self.spec.sessions[s].live { 402 } else { 401 }], &format!("session {s} asking for the balance of wallet {w}"))?;
                    continue;
                }
                let v = r.map_err(|e| format!("session {s} asks for the balance of wallet {w}: {e:?}"))?;
                if !self.spec.sessions[s].stale && !self.spec.missed {
                    for c in ["confirmed", "unconfirmed"] {
                        same!(v[c]["available"], (self.spec.blocks * PAY).to_string(), "the {c} balance of wallet {w} in session {s}");
                    }
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
struct H {
    acts: Vec<Act>,
    can: Vec<Act>,
    key: u128,
}
struct Histories {
    sessions: usize,
    with: fn(&Act) -> bool,
}
impl Histories {
    fn play(&self, acts: &[Act]) -> Result<H, String> {
        let mut l = Live::new()?;
        // What changes nothing as far as the specification goes may still change what comes after it
        let mut idle = None;
        for (i, a) in acts.iter().enumerate() {
            let before = l.spec.clone();
            l.step(*a)?;
            if l.spec == before {
                idle = Some(*a);
            }
            if i + 1 == acts.len() {
                l.probe()?;
            }
        }
        let n = l.sessions.len();
        let mut can = vec![];
        for w in 0..WALLETS {
            for p in 0..PASSWORDS.len() {
                // No more sessions than planned, but a wrong password opens none
                if n < self.sessions || l.spec.password(w) != Some(p) {
                    can.push(Unlock(w, p));
                }
            }
            can.push(Create(w, 0));
        }
        for s in 0..n {
            for w in 0..WALLETS {
                can.extend([Lock(s, w), Delete(s, w), Resync(s, w)]);
            }
            can.extend([Close(s), Refresh(s), Subscribe(s), Unsubscribe(s), Shutdown(Some(s))]);
        }
        can.extend([Tick, Block, Missed, Shutdown(None)]);
        can.retain(|a| (self.with)(a));
        let mut k = l.spec.clone();
        for s in &mut k.sessions {
            s.deadline = s.deadline.saturating_sub(k.now);
            s.extended = s.extended.map(|t| t.saturating_sub(k.now));
            if !s.live {
                s.deadline = 0;
            }
        }
        k.now = 0;
        Ok(H { acts: acts.to_vec(), can, key: fp(&(k, idle)) })
    }
}
impl System for Histories {
    type S = H;
    type A = Act;
    fn init(&self) -> Vec<H> {
        vec![self.play(&[]).unwrap()]
    }
    fn actions(&self, s: &H) -> Vec<Act> {
        s.can.clone()
    }
    fn step(&self, s: &mut H, a: &Act) -> Result<(), String> {
        let mut acts = s.acts.clone();
        acts.push(*a);
        *s = self.play(&acts)?;
        Ok(())
    }
    fn key(&self, s: &H) -> u128 {
        s.key
    }
}


/// A place in a JSON value.
fn paths(v: &Value, at: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
    out.push(at.clone());
    let children: Vec<(Value, &Value)> = match v {
        Value::Array(a) => a.iter().enumerate().map(|(i, v)| (json!(i), v)).collect(),
        Value::Object(m) => m.iter().map(|(k, v)| (json!(k), v)).collect(),
        _ => vec![],
    };
    for (k, v) in children {
        at.push(k);
        // One number of a long list stands for all
        if v.is_object() || v.is_array() || at.last().unwrap().as_u64().is_none_or(|i| i < 2) {
            paths(v, at, out);
        }
        at.pop();
    }
}
fn set(v: &mut Value, path: &[Value], new: Option<Value>) {
    let Some((k, rest)) = path.split_first() else {
        *v = new.unwrap_or(Value::Null);
        return;
    };
    if rest.is_empty() && new.is_none() {
        match v {
            Value::Array(a) => drop(a.remove(k.as_u64().unwrap() as usize)),
            Value::Object(m) => drop(m.remove(k.as_str().unwrap())),
            _ => unreachable!(),
        }
        return;
    }
    match k {
        Value::String(k) => set(&mut v[k.as_str()], rest, new),
        k => set(&mut v[k.as_u64().unwrap() as usize], rest, new),
    }
}
/// Requests that are in order, in the first session, where the first wallet is open.
fn requests(l: &Live) -> Result<Vec<(&'static str, Value)>, String> {
    let (s, w) = (&l.sessions[0], &l.ids[0]);
    let to = foreign(1).to_string();
    let vtt = json!({"session_id": s, "wallet_id": w, "fee": {"absolute": "10"}, "outputs": [{"address": to, "amount": "1000", "time_lock": 7}], "utxo_strategy": {"strategy": "small_first", "from": null}, "selected_utxos": [], "preview": false, "label": "l"});
    let rad = json!({"time_lock": 0, "retrieve": [{"kind": "RNG", "url": "", "script": [128]}], "aggregate": {"filters": [], "reducer": 11}, "tally": {"filters": [{"op": 8, "args": []}], "reducer": 11}});
    let dr = json!({"data_request": rad, "witness_reward": "1000", "witnesses": "2", "commit_and_reveal_fee": "10", "min_consensus_percentage": "51", "collateral": "1000"});
    let t = l.rpc.call("create_vtt", json!({"session_id": s, "wallet_id": w, "fee": 1, "outputs": [{"address": to, "amount": "5"}], "preview": true})).map_err(|e| format!("create_vtt: {e:?}"))?["transaction"].clone();
    let d = l.rpc.call("create_data_request", json!({"session_id": s, "wallet_id": w, "fee": 1, "request": dr, "preview": true})).map_err(|e| format!("create_data_request: {e:?}"))?["transaction"].clone();
    let words = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
    Ok(vec![
        ("get_wallet_infos", Value::Null),
        ("create_mnemonics", json!({"length": 12})),
        ("validate_mnemonics", json!({"seed_source": "xprv", "seed_data": import(0), "backup_password": "backup"})),
        ("validate_mnemonics", json!({"seed_source": "mnemonics", "seed_data": words})),
        ("create_wallet", json!({"name": "n", "description": "d", "password": "a long password", "seed_source": "mnemonics", "seed_data": words, "overwrite": false, "birth_date": "current"})),
        ("create_wallet", json!({"password": "a long password", "seed_source": "xprv", "seed_data": import(0), "backup_password": "backup", "overwrite": true, "birth_date": {"imported": 0}})),
        ("unlock_wallet", json!({"wallet_id": w, "password": PASSWORDS[0]})),
        ("update_wallet", json!({"session_id": s, "wallet_id": w, "name": "n", "description": "d"})),
        ("resync_wallet", json!({"session_id": s, "wallet_id": w})),
        ("refresh_session", json!({"session_id": s})),
        ("get_balance", json!({"session_id": s, "wallet_id": w})),
        ("get_utxo_info", json!({"session_id": s, "wallet_id": w})),
        ("get_transactions", json!({"session_id": s, "wallet_id": w, "offset": 0, "limit": 10})),
        ("send_transaction", json!({"session_id": s, "wallet_id": w, "transaction": t})),
        ("send_transaction", json!({"session_id": s, "wallet_id": w, "transaction": d})),
        ("generate_address", json!({"session_id": s, "wallet_id": w, "external": true, "label": "l"})),
        ("get_addresses", json!({"session_id": s, "wallet_id": w, "external": false, "offset": 0, "limit": 10})),
        ("create_data_request", json!({"session_id": s, "wallet_id": w, "fee": "10", "fee_type": "absolute", "request": dr, "preview": false})),
        ("create_vtt", vtt),
        ("run_rad_request", json!({"rad_request": rad})),
        ("set", json!({"session_id": s, "wallet_id": w, "key": "k", "value": ["v"]})),
        ("get", json!({"session_id": s, "wallet_id": w, "key": "k"})),
        ("sign_data", json!({"session_id": s, "wallet_id": w, "data": "d", "extended_pk": true})),
        ("export_master_key", json!({"session_id": s, "wallet_id": w, "password": "p"})),
        ("lock_wallet", json!({"session_id": s, "wallet_id": w})),
        ("delete_wallet", json!({"session_id": s, "wallet_id": w})),
        ("close_session", json!({"session_id": s})),
        ("shutdown", json!({"session_id": s})),
    ])
}
const NO_EFFECT: [&str; 13] = ["get_wallet_infos", "create_mnemonics", "validate_mnemonics", "unlock_wallet", "get_balance", "get_utxo_info", "get_transactions", "get_addresses", "run_rad_request", "get", "sign_data", "export_master_key", "refresh_session"];

/// Two sessions, each with a wallet open in it that has money and addresses.
fn two_sessions() -> Result<Live, String> {
    let mut l = Live::new()?;
    for a in [Unlock(0, 0), Unlock(1, 1), Block] {
        l.step(a)?;
    }
    for s in 0..2 {
        l.rpc.call("generate_address", json!({"session_id": l.sessions[s], "wallet_id": l.ids[s]})).map_err(|e| format!("{e:?}"))?;
    }
    Ok(l)
}
fn odd() -> &'static Vec<Value> {
    static V: OnceLock<Vec<Value>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![Value::Null, json!(true), json!(0), json!(1), json!(-1), json!(1.5), json!(255), json!(u32::MAX), json!(u64::MAX), json!(i64::MIN), json!([]), json!({}), json!([[]]), json!({"a": 1}), json!([null])];
        v.extend(["", "0", "1", "-1", "18446744073709551615", "340282366920938463463374607431768211456", "NaN", "inf", "1e400", "\0", "é", "not hex", "00", "xprv", "xprv1", "mnemonics", "imported", "current", "Mainnet", "wit1"].map(|s| json!(s)));
        // Well-formed bech32 of what is none or too short a key
        for (hrp, n) in [("xprv", 0), ("xprv", 15), ("xprv", 16), ("xprv", 47), ("xprv", 48), ("xprv", 64), ("xprvdouble", 0), ("xprvdouble", 64), ("wit", 20), ("wit", 3), ("bc", 20)] {
            use bech32::ToBase32;
            v.push(json!(bech32::encode(hrp, vec![7u8; n].to_base32()).unwrap()));
        }
        for text in ["", "xprv", "xprv1", "xprvxprv", "a text that is no key at all"] {
            v.push(json!(encrypt("xprv", text, "backup")));
            v.push(json!(encrypt("xprvdouble", text, "backup")));
        }
        v.push(json!("x".repeat(100_000)));
        v
    })
}

pub fn c43(run: &mut Run) {
    let d = run.pick(5, 6);
    bfs(run, "lifetimes", &Histories { sessions: 2, with: |a| matches!(a, Unlock(..) | Close(_) | Refresh(_) | Tick | Shutdown(_)) }, d + 1, 2_000_000);
    bfs(run, "wallets", &Histories { sessions: 2, with: |a| matches!(a, Unlock(..) | Lock(..) | Close(_) | Delete(..) | Create(..) | Block | Missed) }, d, 2_000_000);
    bfs(run, "notifications", &Histories { sessions: 2, with: |a| matches!(a, Unlock(..) | Lock(..) | Close(_) | Tick | Resync(..) | Subscribe(_) | Unsubscribe(_) | Block | Missed) }, d, 2_000_000);
    explore(run, "whose", |c: &mut Ch| {
        let l = two_sessions()?;
        let all = requests(&l)?;
        let i = c.pick(all.len());
        let (method, mut p) = all[i].clone();
        let before = (l.rpc.db.dump(), l.rpc.node.lock().unwrap().requests);
        // Whether the session or the wallet is another's, over, or none at all
        let kind = c.pick(7);
        let of = |l: &Live, p: &mut Value, k: &str, v: &str| {
            let _ = l;
            if p.get(k).is_some() {
                p[k] = json!(v);
            }
        };
        if p.get("session_id").is_none() || (kind != 0 && p.get("wallet_id").is_none() && ![2, 3, 4].contains(&kind)) {
            return Ok(());
        }
        c.op(|| format!("{method}, kind {kind}"));
        let expect: &[i64] = match kind {
            0 => {
                l.rpc.call(method, p).map_err(|e| format!("{method}: {e:?}"))?;
                l.probe_after(method)?;
                return Ok(());
            }
            1 => {
                of(&l, &mut p, "wallet_id", &l.ids[1]);
                &[402]
            }
            2 => {
                of(&l, &mut p, "session_id", &l.sessions[0].to_uppercase());
                &[401]
            }
            3 => {
                of(&l, &mut p, "session_id", &l.ids[0]);
                &[401]
            }
            4 => {
                l.rpc.call("close_session", json!({"session_id": l.sessions[0]})).map_err(|e| format!("close: {e:?}"))?;
                &[401]
            }
            5 => {
                l.rpc.call("lock_wallet", json!({"session_id": l.sessions[0], "wallet_id": l.ids[0]})).map_err(|e| format!("lock: {e:?}"))?;
                &[402]
            }
            _ => {
                of(&l, &mut p, "session_id", &l.sessions[1]);
                &[402]
            }
        };
        let r = l.rpc.call(method, p);
        if method != "lock_wallet" || expect == [401] {
            err_is(&r, expect, &format!("{method} of kind {kind}"))?;
        }
        ensure!((l.rpc.db.dump(), l.rpc.node.lock().unwrap().requests) == before, "{method}, which was refused, had an effect");
        let b = l.rpc.call("get_balance", json!({"session_id": l.sessions[1], "wallet_id": l.ids[1]}));
        ensure!(b.is_ok(), "after a refused {method} the other session is gone");
        Ok(())
    });
    let thorough = run.thorough();
    explore(run, "malformed", |c: &mut Ch| {
        let l = two_sessions()?;
        let all = requests(&l)?;
        let i = c.pick(all.len());
        let (method, base) = &all[i];
        let mut at = vec![];
        paths(base, &mut vec![], &mut at);
        let mut p = base.clone();
        let mut last = 0;
        let mut touched = vec![];
        for k in 0..if thorough && at.len() < 12 { 2 } else { 1 } {
            if k == 1 && (last + 1 >= at.len() || !c.flag()) {
                break;
            }
            let j = if k == 0 { c.pick(at.len()) } else { last + 1 + c.pick(at.len() - last - 1) };
            if k == 1 && at[j].starts_with(&at[last]) {
                break;
            }
            last = j;
            let n = c.pick(odd().len() + 1);
            touched.push((at[j].clone(), n));
            set(&mut p, &at[j], odd().get(n).cloned());
            if k == 0 && at[j].is_empty() {
                break;
            }
        }
        c.op(|| format!("{method} {touched:?} {}", p.to_string().chars().take(1000).collect::<String>()));
        let before = l.rpc.db.dump();
        let r = l.rpc.call(method, p.clone());
        if r.is_err() || NO_EFFECT.contains(method) {
            ensure!(l.rpc.db.dump() == before, "{method}, which {}, changed what is stored", if r.is_err() { "failed" } else { "only asks" });
        }
        let own = |k: &str| p.get(k) == base.get(k);
        if base.get("session_id").is_some() && *method != "shutdown" && !own("session_id") {
            err_is(&r, &[400, 401, -32602], &format!("{method} in no session"))?;
        }
        if base.get("session_id").is_some() && base.get("wallet_id").is_some() && !own("wallet_id") && *method != "lock_wallet" {
            err_is(&r, &[400, 402, -32602], &format!("{method} of no wallet"))?;
        }
        for s in 0..2 {
            let gone = s == 0 && r.is_ok() && ["lock_wallet", "delete_wallet", "close_session"].contains(method);
            let b = l.rpc.call("get_balance", json!({"session_id": l.sessions[s], "wallet_id": l.ids[s]}));
            ensure!(b.is_ok() || gone, "after {method} session {s} is gone: {b:?}");
        }
        c.outcome(&format!("{method} {:?}", r.as_ref().err().map(code)));
        Ok(())
    });
}
