//! C41: wallets, their passwords and their keys.
use crate::{rpc::*, sessions::encrypt, world::*};
use mc::*;
use serde_json::{Value, json};
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex, OnceLock},
};
use witnet_crypto::{
    hash::calculate_sha256,
    key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen},
    mnemonic::Mnemonic,
    secp256k1,
};
use witnet_data_structures::{chain::*, get_environment, transaction::*};

const PASSWORDS: [&str; 2] = ["the first password", "another password"];
const WORDS: &str = "legal winner thank year wave sausage worth useful legal winner thank yellow";

/// The wallets: one is imported as a key, the other one as words.
struct Wal {
    source: &'static str,
    data: String,
    master: ExtendedSK,
    addresses: [Vec<String>; 2],
}
fn listed(master: &ExtendedSK) -> [Vec<String>; 2] {
    [0, 1].map(|k| (0..6).map(|i| derive(master, k, i).bech32(get_environment())).collect())
}
fn wallets() -> &'static Vec<Wal> {
    static W: OnceLock<Vec<Wal>> = OnceLock::new();
    W.get_or_init(|| {
        let a = master_of(b"the wallet that is imported as a key");
        let b = words_master(WORDS);
        vec![
            Wal { source: "xprv", data: encrypt("xprv", &a.to_slip32(&KeyPath::default()).unwrap(), "backup"), addresses: listed(&a), master: a },
            Wal { source: "mnemonics", data: WORDS.into(), addresses: listed(&b), master: b },
        ]
    })
}
fn master_of(seed: &[u8]) -> ExtendedSK {
    MasterKeyGen::new(calculate_sha256(seed).as_ref()).with_key(b"Bitcoin seed").generate().unwrap()
}
fn words_master(words: &str) -> ExtendedSK {
    // The seed that BIP39 makes of the words and no password
    let m = Mnemonic::from_phrase_ref(words).unwrap();
    MasterKeyGen::new(m.seed_ref("")).with_key(b"Bitcoin seed").generate().unwrap()
}
fn path(k: usize, i: usize) -> String {
    format!("m/3'/4919'/0'/{k}/{i}")
}
fn node(blocks: &[(u32, BlockTransactions)]) -> (Arc<Mutex<Node>>, Hash) {
    let mut n = Node::default();
    for (e, b) in blocks {
        n.mine(*e, b.clone());
    }
    n.confirmed = n.chain.len();
    let h = block_hash(&n.chain[0]);
    (Arc::new(Mutex::new(n)), h)
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Act {
    Create(usize, usize, bool, Option<&'static str>),
    Unlock(usize, usize),
    Close(usize),
    Update(usize, Option<&'static str>, Option<&'static str>),
    Set(usize, u8),
    Gen(usize, usize, bool),
    Delete(usize),
    Resync(usize),
    /// The process ends, as of this many of the writes that the last action made, and starts again.
    Crash(usize),
}
use Act::*;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct One {
    password: usize,
    name: Option<&'static str>,
    description: Option<&'static str>,
    set: Option<u8>,
    labels: [Vec<bool>; 2],
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Spec {
    /// In the order in which they are listed.
    order: Vec<usize>,
    wallets: BTreeMap<usize, One>,
}
struct Live {
    rpc: Rpc,
    genesis: Hash,
    ids: BTreeMap<usize, String>,
    sessions: BTreeMap<usize, String>,
    spec: Spec,
    before: Spec,
    written: usize,
}
type R = Result<Value, jsonrpc_core::Error>;
fn good(r: R, what: &str) -> Result<Value, String> {
    r.map_err(|e| format!("{what}: {e:?}"))
}
fn bad(r: &R, codes: &[i64], what: &str) -> Result<(), String> {
    match r {
        Ok(v) => Err(format!("{what} succeeded: {v}")),
        Err(e) if codes.contains(&code(e)) => Ok(()),
        Err(e) => Err(format!("{what} failed with {e:?}, not {codes:?}")),
    }
}
impl Live {
    fn new() -> Live {
        let (node, genesis) = node(&[(0, BlockTransactions::default())]);
        let rpc = Rpc::start(node, Arc::new(rocksdb::DB::in_memory()), params(false, 1, 1_000_000, genesis));
        Live { rpc, genesis, ids: BTreeMap::new(), sessions: BTreeMap::new(), spec: Spec::default(), before: Spec::default(), written: 0 }
    }
    /// Both wallets are there already.
    fn made() -> Result<Live, String> {
        type Made = (Vec<Vec<rocksdb::Op>>, BTreeMap<usize, String>, Spec);
        static MADE: OnceLock<Result<Made, String>> = OnceLock::new();
        let mut l = Live::new();
        let made = MADE.get_or_init(|| {
            let mut l = Live::new();
            l.step(Create(0, 0, false, Some("n")))?;
            l.step(Create(1, 0, false, None))?;
            Ok((l.rpc.db.log(), l.ids.clone(), l.spec.clone()))
        });
        let (log, ids, spec) = made.clone()?;
        l.rpc = Rpc::start(l.rpc.node.clone(), Arc::new(rocksdb::DB::from_log(&log)), params(false, 1, 1_000_000, l.genesis));
        l.written = log.len();
        (l.ids, l.before, l.spec) = (ids, spec.clone(), spec);
        Ok(l)
    }
    fn on_disk(&self, writes: usize) -> Rpc {
        let db = Arc::new(rocksdb::DB::from_log(&self.rpc.db.log()[..writes]));
        Rpc::start(self.rpc.node.clone(), db, params(false, 1, 1_000_000, self.genesis))
    }
    fn step(&mut self, a: Act) -> Result<(), String> {
        if let Crash(n) = a {
            let rpc = self.on_disk(self.written + n);
            if self.looks(&rpc, &self.spec, false).is_err() {
                self.looks(&rpc, &self.before, true)?;
                self.spec = self.before.clone();
            }
            // As it was before it was looked at
            self.rpc = self.on_disk(self.written + n);
            self.sessions.clear();
            self.before = self.spec.clone();
            self.written = self.rpc.db.log().len();
            return Ok(());
        }
        self.before = self.spec.clone();
        self.written = self.rpc.db.log().len();
        let open = |l: &Live, w: usize| json!({"session_id": l.sessions[&w], "wallet_id": l.ids[&w]});
        let with = |mut v: Value, more: Value| {
            v.as_object_mut().unwrap().extend(more.as_object().unwrap().clone());
            v
        };
        match a {
            Create(w, p, overwrite, name) => {
                let x = &wallets()[w];
                let mut q = json!({"seed_source": x.source, "seed_data": x.data, "password": PASSWORDS[p], "backup_password": "backup", "overwrite": overwrite});
                if let Some(n) = name {
                    q["name"] = json!(n);
                }
                let r = self.rpc.call("create_wallet", q);
                if self.spec.wallets.contains_key(&w) && !overwrite {
                    return bad(&r, &[409], "creating a wallet that is there");
                }
                let id = good(r, "create")?["wallet_id"].as_str().unwrap().to_string();
                ensure!(self.ids.iter().all(|(v, i)| (*v == w) == (*i == id)), "wallet {w} is called {id}, among {:?}", self.ids);
                self.ids.insert(w, id);
                self.sessions.remove(&w);
                if !self.spec.order.contains(&w) {
                    self.spec.order.push(w);
                }
                self.spec.wallets.insert(w, One { password: p, name, ..Default::default() });
            }
            Unlock(w, p) => {
                let r = self.rpc.call("unlock_wallet", json!({"wallet_id": self.ids[&w], "password": PASSWORDS[p]}));
                if self.spec.wallets.get(&w).map(|x| x.password) != Some(p) {
                    return bad(&r, &[400], "unlocking with a wrong password, or what is not there,");
                }
                self.sessions.insert(w, good(r, "unlock")?["session_id"].as_str().unwrap().into());
            }
            Close(w) => {
                good(self.rpc.call("close_session", json!({"session_id": self.sessions[&w]})), "close")?;
                self.sessions.remove(&w);
            }
            Update(w, name, description) => {
                let mut q = json!({});
                let x = self.spec.wallets.get_mut(&w).unwrap();
                if let Some(n) = name {
                    q["name"] = json!(n);
                    x.name = name;
                }
                if let Some(n) = description {
                    q["description"] = json!(n);
                    x.description = description;
                }
                good(self.rpc.call("update_wallet", with(open(self, w), q)), "update")?;
            }
            Set(w, v) => {
                good(self.rpc.call("set", with(open(self, w), json!({"key": "name", "value": [v]}))), "set")?;
                self.spec.wallets.get_mut(&w).unwrap().set = Some(v);
            }
            Gen(w, k, label) => {
                let mut q = json!({"external": k == 0});
                if label {
                    q["label"] = json!("label");
                }
                let v = good(self.rpc.call("generate_address", with(open(self, w), q)), "generate")?;
                let l = &mut self.spec.wallets.get_mut(&w).unwrap().labels[k];
                same!(v["address"], wallets()[w].addresses[k][l.len()], "a new address");
                same!(v["path"], path(k, l.len()), "its path");
                l.push(label);
            }
            Delete(w) => {
                good(self.rpc.call("delete_wallet", open(self, w)), "delete")?;
                self.sessions.remove(&w);
                self.spec.wallets.remove(&w);
                self.spec.order.retain(|x| *x != w);
            }
            Resync(w) => {
                good(self.rpc.call("resync_wallet", open(self, w)), "resync")?;
                self.spec.wallets.get_mut(&w).unwrap().labels = Default::default();
            }
            Crash(_) => unreachable!(),
        }
        Ok(())
    }
    /// What an open wallet shows.
    fn inside(&self, rpc: &Rpc, w: usize, x: &One, session: &str) -> Result<(), String> {
        let base = json!({"session_id": session, "wallet_id": self.ids[&w]});
        let with = |k: Value| {
            let mut v = base.clone();
            v.as_object_mut().unwrap().extend(k.as_object().unwrap().clone());
            v
        };
        for (key, want) in [("name", x.set.map(|v| json!([v]))), ("custom-name", None), ("", None)] {
            let v = good(rpc.call("get", with(json!({"key": key}))), "get")?;
            same!(v["value"], want.unwrap_or(Value::Null), "what wallet {w} keeps under {key:?}");
        }
        for k in 0..2 {
            let n = x.labels[k].len();
            for (offset, limit) in [(0, 25), (0, 1), (1, 1), (1, 2), (2, 9), (3, u32::MAX), (u32::MAX, 3), (0, 0)] {
                let v = good(rpc.call("get_addresses", with(json!({"external": k == 0, "offset": offset, "limit": limit}))), "addresses")?;
                same!(v["total"], n, "how many addresses wallet {w} has in keychain {k}");
                let got: Vec<_> = v["addresses"].as_array().unwrap().iter().map(|a| (a["address"].clone(), a["path"].clone(), a["info"]["label"].clone(), a["index"].clone())).collect();
                // The last one comes first
                let want: Vec<_> = (0..n)
                    .rev()
                    .skip(offset as usize)
                    .take(limit as usize)
                    .map(|i| (json!(wallets()[w].addresses[k][i]), json!(path(k, i)), json!(x.labels[k][i].then_some("label")), json!(i)))
                    .collect();
                same!(got, want, "addresses {offset}.. of wallet {w} in keychain {k}");
            }
        }
        let b = good(rpc.call("get_balance", base.clone()), "balance")?;
        same!(b["confirmed"]["available"], "0", "the balance of wallet {w}");
        Ok(())
    }
    /// Whether a wallet server shows just these wallets; `torn`, when an update may be half done.
    fn looks(&self, rpc: &Rpc, spec: &Spec, torn: bool) -> Result<(), String> {
        let infos = good(rpc.call("get_wallet_infos", Value::Null), "infos")?;
        let got: Vec<_> = infos["infos"].as_array().unwrap().iter().map(|i| (i["id"].as_str().unwrap().to_string(), i["name"].as_str())).collect();
        // What is listed and what a wallet says of itself are written one after the other
        let listed = |w: &usize, x: &One, name: Option<&str>| name.unwrap_or("") == x.name.unwrap_or("") || torn && self.spec.wallets.get(w).is_some_and(|y| name == y.name && x.labels == y.labels);
        same!(got.iter().map(|x| &x.0).collect::<Vec<_>>(), spec.order.iter().map(|w| &self.ids[w]).collect::<Vec<_>>(), "the wallets that are listed");
        for (w, (_, name)) in spec.order.iter().zip(&got) {
            let x = &spec.wallets[w];
            ensure!(listed(w, x, *name), "wallet {w} is listed as {name:?}, not as {:?}", x.name);
        }
        for (w, id) in &self.ids {
            for (p, password) in PASSWORDS.iter().enumerate() {
                let r = rpc.call("unlock_wallet", json!({"wallet_id": id, "password": password}));
                let Some(x) = spec.wallets.get(w).filter(|x| x.password == p) else {
                    bad(&r, &[400], &format!("unlocking wallet {w} with password {p}"))?;
                    continue;
                };
                let v = good(r, &format!("unlocking wallet {w}"))?;
                let (n, d) = (v["name"].as_str(), v["description"].as_str());
                ensure!(listed(w, x, n), "wallet {w} calls itself {n:?}, not {:?}", x.name);
                ensure!(d == x.description || torn && self.spec.wallets.get(w).is_some_and(|y| d == y.description), "the description of wallet {w} is {d:?}, not {:?}", x.description);
                same!(v["birth_date"], 0, "the birth date of wallet {w}");
                self.inside(rpc, *w, x, v["session_id"].as_str().unwrap())?;
            }
        }
        Ok(())
    }
    fn probe(&self, last: &Act) -> Result<(), String> {
        for (w, s) in &self.sessions {
            self.inside(&self.rpc, *w, &self.spec.wallets[w], s)?;
        }
        if matches!(last, Crash(_)) {
            // Seen when it happened
            return Ok(());
        }
        let end = self.rpc.db.log().len();
        self.looks(&self.on_disk(end), &self.spec, false).map_err(|e| format!("after a restart, {e}"))?;
        for n in self.written..end {
            let rpc = self.on_disk(n);
            if let Err(new) = self.looks(&rpc, &self.spec, false) {
                // Twice, as looking at it changes what is stored
                self.looks(&self.on_disk(n), &self.before, true).map_err(|old| format!("when the process ends after {} of {} writes: {new}; {old}", n - self.written, end - self.written))?;
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
struct H {
    acts: Vec<Act>,
    can: Vec<Act>,
    key: u128,
}
struct Histories {
    made: bool,
    with: fn(&Act) -> bool,
}
impl Histories {
    fn play(&self, acts: &[Act]) -> Result<H, String> {
        let mut l = if self.made { Live::made()? } else { Live::new() };
        for (i, a) in acts.iter().enumerate() {
            l.step(*a)?;
            if i + 1 == acts.len() {
                l.probe(a)?;
            }
        }
        let mut can = vec![];
        for w in 0..wallets().len() {
            let n = if w == 0 { Some("n") } else { None };
            for p in 0..PASSWORDS.len() {
                can.push(Create(w, p, false, n));
                can.push(Create(w, p, true, if p == 0 { n } else { None }));
                if l.ids.contains_key(&w) && !l.sessions.contains_key(&w) {
                    can.push(Unlock(w, p));
                }
            }
            if l.sessions.contains_key(&w) {
                can.extend([Close(w), Update(w, Some("m"), None), Update(w, None, Some("d")), Update(w, Some("k"), Some("")), Set(w, 1), Set(w, 2), Delete(w), Resync(w)]);
                if l.spec.wallets[&w].labels.iter().map(Vec::len).max() < Some(4) {
                    can.extend([Gen(w, 0, false), Gen(w, 0, true), Gen(w, 1, false)]);
                }
            }
        }
        if !acts.is_empty() && !matches!(acts.last(), Some(Crash(_))) {
            can.extend((0..=l.rpc.db.log().len() - l.written).map(Crash));
        }
        can.retain(|a| (self.with)(a));
        // The writes of the last action may still be lost
        let lost = can.iter().any(|a| matches!(a, Crash(_))).then(|| (l.before.clone(), l.rpc.db.log().len() - l.written));
        let sessions: Vec<_> = l.sessions.keys().collect();
        let ids: Vec<_> = l.ids.keys().collect();
        Ok(H { acts: acts.to_vec(), can, key: fp(&(&l.spec, sessions, ids, lost)) })
    }
}
impl System for Histories {
    type S = H;
    type A = Act;
    fn init(&self) -> Vec<H> {
        vec![self.play(&[]).unwrap()]
    }
    fn actions(&self, s: &H) -> Vec<Act> {
        s.can.clone()
    }
    fn step(&self, s: &mut H, a: &Act) -> Result<(), String> {
        let mut acts = s.acts.clone();
        acts.push(*a);
        *s = self.play(&acts)?;
        Ok(())
    }
    fn key(&self, s: &H) -> u128 {
        s.key
    }
}

/// A server of its own, with an empty database.
fn fresh() -> Rpc {
    let (node, genesis) = node(&[(0, BlockTransactions::default())]);
    Rpc::start(node, Arc::new(rocksdb::DB::in_memory()), params(false, 1, 1_000_000, genesis))
}
/// Makes a wallet and opens it.
fn make(rpc: &Rpc, source: &str, data: &str, backup: &str) -> Result<(String, String), String> {
    let v = good(rpc.call("create_wallet", json!({"seed_source": source, "seed_data": data, "backup_password": backup, "password": PASSWORDS[0]})), "create")?;
    let id = v["wallet_id"].as_str().unwrap().to_string();
    let v = good(rpc.call("unlock_wallet", json!({"wallet_id": id, "password": PASSWORDS[0]})), "unlock")?;
    Ok((id, v["session_id"].as_str().unwrap().into()))
}
/// The addresses it gives out, and what it signs with.
fn use_keys(rpc: &Rpc, id: &str, session: &str, keychains: &[ExtendedSK; 2], data: &str) -> Result<(), String> {
    for (k, key) in keychains.iter().enumerate() {
        for i in 0..3 {
            let v = good(rpc.call("generate_address", json!({"session_id": session, "wallet_id": id, "external": k == 0})), "generate")?;
            let sk = key.derive(&KeyPath::default().index(i)).unwrap();
            let pkh = PublicKey::from(ExtendedPK::from_secret_key(&sk).key).pkh();
            same!(v["address"], pkh.bech32(get_environment()), "address {i} of keychain {k}");
        }
    }
    for extended in [false, true] {
        let v = good(rpc.call("sign_data", json!({"session_id": session, "wallet_id": id, "data": data, "extended_pk": extended})), "sign")?;
        let pk = ExtendedPK::from_secret_key(&keychains[0]).key;
        same!(v["public_key"], pk.to_string(), "the key it signs with");
        same!(v["chaincode"].as_str().unwrap_or(""), if extended { hex::encode(keychains[0].chain_code()) } else { String::new() }, "its chain code");
        let s: secp256k1::ecdsa::Signature = v["signature"].as_str().unwrap().parse().map_err(|e| format!("signature: {e}"))?;
        let m = secp256k1::Message::from_digest_slice(calculate_sha256(data.as_bytes()).as_ref()).unwrap();
        secp256k1::Secp256k1::new().verify_ecdsa(&m, &s, &pk).map_err(|e| format!("the signature of {data:?} is not valid: {e}"))?;
    }
    Ok(())
}
fn keychains(master: &ExtendedSK) -> [ExtendedSK; 2] {
    [0, 1].map(|k| master.derive(&KeyPath::default().hardened(3).hardened(4919).hardened(0).index(k)).unwrap())
}
/// Keys whose text has, by chance, the tag of such texts within.
fn tagged() -> &'static Vec<ExtendedSK> {
    static T: OnceLock<Vec<ExtendedSK>> = OnceLock::new();
    T.get_or_init(|| (0u64..).map(|i| master_of(format!("a key of text {i}").as_bytes())).filter(|k| k.to_slip32(&KeyPath::default()).unwrap()[4..].contains("xprv")).take(2).collect())
}

pub fn c41(run: &mut Run) {
    let d = run.pick(4, 5);
    bfs(run, "wallets", &Histories { made: false, with: |a| matches!(a, Create(..) | Unlock(..) | Delete(_) | Crash(_)) }, d, 2_000_000);
    bfs(run, "data", &Histories { made: true, with: |a| matches!(a, Unlock(_, 0) | Update(..) | Set(..) | Gen(..) | Resync(_) | Close(_) | Crash(_)) }, d + 1, 2_000_000);
    let n = run.pick(20, 300);
    explore(run, "keys", |c: &mut Ch| {
        // A key, or words
        let kind = c.pick(3);
        let i = c.pick(n);
        let data = ["", "a message"][i % 2];
        let (rpc, back) = (fresh(), "a password of the backup");
        let (source, seed, master) = match kind {
            0 => {
                let m = if i < 2 { tagged()[i].clone() } else { master_of(format!("seed number {i}").as_bytes()) };
                ("xprv", encrypt("xprv", &m.to_slip32(&KeyPath::default()).unwrap(), "backup"), m)
            }
            1 => {
                let len = [12, 15, 18, 21, 24][i % 5];
                let v = good(rpc.call("create_mnemonics", json!({"length": len})), "words")?;
                let words = v["mnemonics"].as_str().unwrap().to_string();
                same!(words.split(' ').count(), len, "how many words there are");
                let m = words_master(&words);
                ("mnemonics", words, m)
            }
            // The keys of the addresses only
            _ => {
                let [a, b] = if i < 4 {
                    let o = master_of(b"another one");
                    if i % 2 == 0 { [tagged()[i / 2].clone(), o] } else { [o, tagged()[i / 2].clone()] }
                } else {
                    keychains(&master_of(format!("seed number {i}").as_bytes()))
                };
                let text = |k: &ExtendedSK| k.to_slip32(&KeyPath::default()).unwrap();
                let seed = encrypt("xprvdouble", &(text(&b) + &text(&a)), "backup");
                let check = json!({"seed_source": "xprv", "seed_data": seed, "backup_password": "backup"});
                same!(good(rpc.call("validate_mnemonics", check.clone()), "validate")?["exist"], false, "whether the wallet is there");
                let (id, s) = make(&rpc, "xprv", &seed, "backup")?;
                same!(good(rpc.call("validate_mnemonics", check), "validate")?, json!({"exist": true, "wallet_id": id}), "whether the wallet is there");
                let both = [a, b];
                use_keys(&rpc, &id, &s, &both, data)?;
                let v = good(rpc.call("export_master_key", json!({"session_id": s, "wallet_id": id, "password": back})), "export")?;
                let out = v["master_key"].as_str().unwrap();
                let other = fresh();
                let (id2, s2) = make(&other, "xprv", out, back)?;
                same!(id2, id, "the name of the wallet that was exported");
                return use_keys(&other, &id2, &s2, &both, data);
            }
        };
        let check = json!({"seed_source": source, "seed_data": seed, "backup_password": "backup"});
        same!(good(rpc.call("validate_mnemonics", check.clone()), "validate")?["exist"], false, "whether the wallet is there");
        let (id, s) = make(&rpc, source, &seed, "backup")?;
        same!(good(rpc.call("validate_mnemonics", check), "validate")?, json!({"exist": true, "wallet_id": id}), "whether the wallet is there");
        use_keys(&rpc, &id, &s, &keychains(&master), data)?;
        let v = good(rpc.call("export_master_key", json!({"session_id": s, "wallet_id": id, "password": back})), "export")?;
        let out = v["master_key"].as_str().unwrap();
        ensure!(out.starts_with("xprv1"), "what is exported is {out}");
        // Neither another password nor another letter will do
        let other = fresh();
        bad(&other.call("create_wallet", json!({"seed_source": "xprv", "seed_data": out, "backup_password": "backup", "password": PASSWORDS[0]})), &[400], "importing with a wrong password")?;
        bad(&other.call("create_wallet", json!({"seed_source": "xprv", "seed_data": out, "password": PASSWORDS[0]})), &[400], "importing with no password")?;
        let j = 5 + i % (out.len() - 5);
        let typo: String = out.chars().enumerate().map(|(k, x)| if k != j { x } else if x == 'q' { 'p' } else { 'q' }).collect();
        bad(&other.call("create_wallet", json!({"seed_source": "xprv", "seed_data": typo, "backup_password": back, "password": PASSWORDS[0]})), &[400], "importing what has a typo")?;
        bad(&other.call("create_wallet", json!({"seed_source": "xprv", "seed_data": out, "backup_password": back, "password": "2 short"})), &[400], "a password of less than 8 characters")?;
        // An address' key is none of a wallet
        let part = keychains(&master)[0].to_slip32(&KeyPath::default().hardened(3).index(1)).unwrap();
        ensure!(other.call("create_wallet", json!({"seed_source": "xprv", "seed_data": encrypt("xprv", &part, "backup"), "backup_password": "backup", "password": PASSWORDS[0]})).is_err(), "a key that is not a master key made a wallet");
        ensure!(other.db.dump().is_empty(), "an import that failed left something behind");
        let (id2, s2) = make(&other, "xprv", out, back)?;
        same!(id2, id, "the name of the wallet that was exported");
        use_keys(&other, &id2, &s2, &keychains(&master), data)?;
        // The passwords' letters are all that opens it
        for p in ["the first passwor", "the first password ", "The first password", "the first passwore"] {
            bad(&other.call("unlock_wallet", json!({"wallet_id": id2, "password": p})), &[400], "unlocking with a wrong password")?;
        }
        Ok(())
    });
    let epochs = run.pick(8, 10) as u32;
    explore(run, "birth dates", |c: &mut Ch| {
        let has = c.subset(epochs as usize - 1);
        let mut blocks = vec![];
        let to = keys().external[0];
        let pays = |e: u32| BlockTransactions { value_transfer_txns: vec![VTTransaction::new(VTTransactionBody::new(vec![], vec![ValueTransferOutput { pkh: to, value: 1 << e, time_lock: 0 }]), vec![])], ..Default::default() };
        for e in (0..epochs).filter(|e| *e == 0 || has & 1 << (e - 1) != 0) {
            blocks.push((e, pays(e)));
        }
        let (node, genesis) = node(&blocks);
        let rpc = Rpc::start(node, Arc::new(rocksdb::DB::in_memory()), params(false, 1, 1_000_000, genesis));
        let kind = c.pick(epochs as usize + 4);
        let born = match kind {
            0 => Value::Null,
            1 => json!("current"),
            2 => json!({"imported": u32::MAX}),
            k => json!({"imported": k - 3}),
        };
        let seed = {
            static S: OnceLock<String> = OnceLock::new();
            S.get_or_init(|| encrypt("xprv", &keys().xprv, "backup"))
        };
        let r = rpc.call("create_wallet", json!({"seed_source": "xprv", "seed_data": seed, "backup_password": "backup", "password": PASSWORDS[0], "birth_date": born}));
        if kind == 2 {
            bad(&r, &[400, 500], "a birth date in the future")?;
            ensure!(rpc.db.dump().is_empty(), "a birth date in the future left something behind");
            return Ok(());
        }
        if r.is_err() && born["imported"].as_u64().is_some_and(|e| e > blocks.last().unwrap().0.into()) {
            c.outcome("no block yet");
            return Ok(());
        }
        let id = good(r, "create")?["wallet_id"].as_str().unwrap().to_string();
        let v = good(rpc.call("unlock_wallet", json!({"wallet_id": id, "password": PASSWORDS[0]})), "unlock")?;
        let s = v["session_id"].as_str().unwrap().to_string();
        let from = match kind {
            0 => 0,
            1 => blocks.last().unwrap().0 + 1,
            k => k as u32 - 3,
        };
        if kind != 1 {
            ensure!(v["birth_date"].as_u64().is_some_and(|b| b <= from.into()), "the birth date is {}, not {from}", v["birth_date"]);
        }
        // The address that was paid is one of the wallet's from now on
        let v = good(rpc.call("get_addresses", json!({"session_id": s, "wallet_id": id})), "addresses")?;
        if v["total"] == 0 {
            good(rpc.call("generate_address", json!({"session_id": s, "wallet_id": id})), "generate")?;
        }
        let mut must: u64 = blocks.iter().filter(|b| b.0 >= from).map(|b| 1 << b.0).sum();
        let mut may: u64 = blocks.iter().map(|b| 1 << b.0).sum();
        for more in 0..3 {
            let v = good(rpc.call("get_balance", json!({"session_id": s, "wallet_id": id})), "balance")?;
            let sum: u64 = v["confirmed"]["available"].as_str().unwrap().parse().unwrap();
            ensure!(sum & must == must && sum | may == may, "of the payments {may:b} the wallet, born at {from}, knows {sum:b}");
            if more < 2 {
                let e = epochs + more;
                let b = {
                    let mut n = rpc.node.lock().unwrap();
                    let b = n.mine(e, pays(e));
                    n.confirmed = n.chain.len();
                    b
                };
                rpc.block(&b);
                rpc.superblock(&[block_hash(&b).to_string()]);
                must |= 1 << e;
                may |= 1 << e;
            }
        }
        Ok(())
    });
}
