//! A node with a chain, a wallet worker that talks to it, and the wallet's database.
use actix::prelude::*;
use serde_json::{Value, json};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex, OnceLock, RwLock},
    time::Duration,
};
use witnet_crypto::{
    hash::HashFunction,
    key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen},
};
use witnet_data_structures::{
    chain::{Block, BlockTransactions, CheckpointBeacon, ConsensusConstants, DataRequestInfo, EpochConstants, Hash, PublicKeyHash, SuperBlock},
    proto::versioning::{ProtocolInfo, ProtocolVersion, VersionedHashable},
    transaction::Transaction,
    witnessing::WitnessingConfig,
};
use witnet_net::client::tcp::{Error as TcpError, jsonrpc::JsonRpcClient};
use witnet_wallet::{
    actors::{app::NodeClient, worker::{self, Worker}},
    model,
    params::{NodeParams, Params},
    types,
};

pub const PERIOD: u64 = 10;
pub const ZERO: u64 = 1_000;
pub fn time_of(epoch: u32) -> u64 {
    ZERO + u64::from(epoch) * PERIOD
}

/// The protocol version in force, and with it the way things are hashed, changes on the way.
pub fn versions() -> ProtocolInfo {
    let mut p = ProtocolInfo::default();
    p.register(0, ProtocolVersion::V1_7, 1);
    p.register(3, ProtocolVersion::V1_8, 1);
    p.register(5, ProtocolVersion::V2_0, 1);
    p.current_version = ProtocolVersion::V2_0;
    p
}
pub fn version_at(epoch: u32) -> ProtocolVersion {
    if epoch < 3 { ProtocolVersion::V1_7 } else if epoch < 5 { ProtocolVersion::V1_8 } else { ProtocolVersion::V2_0 }
}
pub fn tx_hash(t: &Transaction, epoch: u32) -> Hash {
    t.versioned_hash(version_at(epoch))
}
pub fn block_hash(b: &Block) -> Hash {
    b.versioned_hash(version_at(b.block_header.beacon.checkpoint))
}

/// The keys of the wallet under test, derived here: `m/3'/4919'/0'/keychain/index`.
pub struct Keys {
    pub xprv: String,
    pub external: Vec<PublicKeyHash>,
    pub internal: Vec<PublicKeyHash>,
}
pub fn derive(master: &ExtendedSK, keychain: u32, index: u32) -> PublicKeyHash {
    let path = KeyPath::default().hardened(3).hardened(4919).hardened(0).index(keychain).index(index);
    let sk = master.derive(&path).unwrap();
    let ExtendedPK { key, .. } = ExtendedPK::from_secret_key(&sk);
    witnet_data_structures::chain::PublicKey::from(key).pkh()
}
pub fn make_keys(seed: &[u8]) -> Keys {
    let master = MasterKeyGen::new(seed).with_key(b"Bitcoin seed").generate().unwrap();
    Keys {
        xprv: master.to_slip32(&KeyPath::default()).unwrap(),
        external: (0..12).map(|i| derive(&master, 0, i)).collect(),
        internal: (0..12).map(|i| derive(&master, 1, i)).collect(),
    }
}
pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| make_keys(b"the first seed of the wallet under test"))
}
pub fn foreign(i: u8) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[0xf0 | i; 20]).unwrap()
}

#[derive(Clone, Default)]
pub struct Node {
    /// The canonical chain; the genesis block comes first.
    pub chain: Vec<Block>,
    /// How many blocks a superblock has confirmed.
    pub confirmed: usize,
    /// Every transaction the node has heard of, by each of its hashes.
    pub txs: HashMap<String, (Transaction, String)>,
    pub reports: HashMap<String, DataRequestInfo>,
    /// The reports as of each tally, in this chain or another.
    pub of_tally: HashMap<(Hash, Vec<u8>), DataRequestInfo>,
    /// Blocks mined so far, on any branch.
    pub mined: u64,
    /// Requests answered so far.
    pub requests: usize,
    /// The request that is lost, with all after it.
    pub lost_from: Option<usize>,
    /// What was sent to the node to be broadcast.
    pub inventory: Vec<Value>,
    /// What the node says of itself, if it answers.
    pub synced: Option<bool>,
}
impl Node {
    pub fn answer(&mut self, method: &str, params: &Value) -> Result<Value, TcpError> {
        self.requests += 1;
        if self.lost_from.is_some_and(|n| self.requests > n) {
            return Err(TcpError::RequestTimedOut(1));
        }
        let no = |s: &str| TcpError::RequestFailed { message: s.to_string() };
        match method {
            "getBlockChain" => {
                let (epoch, limit) = (params["epoch"].as_i64().unwrap(), params["limit"].as_i64().unwrap());
                let last = self.chain.last().unwrap().block_header.beacon.checkpoint;
                let from = if epoch < 0 { i64::from(last) + epoch + 1 } else { epoch };
                let mut v: Vec<Value> = self
                    .chain
                    .iter()
                    .filter(|b| i64::from(b.block_header.beacon.checkpoint) >= from)
                    .map(|b| json!((b.block_header.beacon.checkpoint, block_hash(b).to_string())))
                    .collect();
                if limit < 0 {
                    let n = v.len().saturating_sub(limit.unsigned_abs() as usize);
                    v.drain(..n);
                } else if limit > 0 {
                    v.truncate(limit as usize);
                }
                Ok(Value::Array(v))
            }
            "getBlock" => {
                let id = params[0].as_str().unwrap();
                let (i, b) = self.chain.iter().enumerate().find(|(_, b)| block_hash(b).to_string() == id).ok_or_else(|| no("block not found"))?;
                let mut v = serde_json::to_value(b).unwrap();
                v["confirmed"] = json!(i < self.confirmed);
                Ok(v)
            }
            "getTransaction" => {
                let (t, b) = self.txs.get(params.as_str().unwrap()).ok_or_else(|| no("transaction not found"))?;
                Ok(json!({"transaction": serde_json::to_value(t).unwrap(), "blockHash": b}))
            }
            "dataRequestReport" => {
                let r = self.reports.get(params.as_str().unwrap()).ok_or_else(|| no("data request not found"))?;
                Ok(serde_json::to_value(r).unwrap())
            }
            "inventory" => {
                self.inventory.push(params.clone());
                Ok(json!(true))
            }
            "syncStatus" => match self.synced {
                Some(s) => Ok(json!({"chain_beacon": CheckpointBeacon::default(), "current_epoch": 0, "node_state": if s { "Synced" } else { "AlmostSynced" }})),
                None => Err(no(method)),
            },
            m => Err(no(m)),
        }
    }
    /// Appends a block with these transactions.
    pub fn mine(&mut self, epoch: u32, txns: BlockTransactions) -> Block {
        self.mined += 1;
        let nonce = self.mined;
        let mut b = Block::new(Default::default(), Default::default(), txns);
        b.block_header.beacon = CheckpointBeacon {
            checkpoint: epoch,
            hash_prev_block: self.chain.last().map(block_hash).unwrap_or_else(bootstrap),
        };
        b.block_header.merkle_roots.mint_hash = b.txns.mint.versioned_hash(version_at(epoch));
        b.block_header.merkle_roots.vt_hash_merkle_root = Hash::from(nonce.to_le_bytes().iter().cycle().take(32).copied().collect::<Vec<u8>>());
        // As it comes out of the JSON the wallet is given
        let b: Block = serde_json::from_value(serde_json::to_value(&b).unwrap()).unwrap();
        let h = block_hash(&b).to_string();
        for t in block_txs(&b) {
            self.txs.insert(tx_hash(&t, epoch).to_string(), (t, h.clone()));
        }
        self.chain.push(b.clone());
        b
    }
}
pub fn bootstrap() -> Hash {
    Hash::SHA256([7; 32])
}
/// The transactions of a block in the order in which they take effect.
pub fn block_txs(b: &Block) -> Vec<Transaction> {
    let t = &b.txns;
    let mut v: Vec<Transaction> = vec![];
    v.extend(t.value_transfer_txns.iter().cloned().map(Transaction::ValueTransfer));
    v.extend(t.data_request_txns.iter().cloned().map(Transaction::DataRequest));
    v.extend(t.commit_txns.iter().cloned().map(Transaction::Commit));
    v.extend(t.tally_txns.iter().cloned().map(Transaction::Tally));
    v.extend(t.stake_txns.iter().cloned().map(Transaction::Stake));
    v.extend(t.unstake_txns.iter().cloned().map(Transaction::Unstake));
    v.push(Transaction::Mint(t.mint.clone()));
    v
}

pub fn consensus() -> ConsensusConstants {
    ConsensusConstants {
        checkpoint_zero_timestamp: 0,
        checkpoints_period: 1,
        bootstrap_hash: bootstrap(),
        genesis_hash: Hash::SHA256([4; 32]),
        max_vt_weight: 20_000,
        max_dr_weight: 80_000,
        activity_period: 0,
        reputation_expire_alpha_diff: 0,
        reputation_issuance: 0,
        reputation_issuance_stop: 0,
        reputation_penalization_factor: 0.0,
        mining_backup_factor: 0,
        mining_replication_factor: 0,
        collateral_minimum: 0,
        bootstrapping_committee: vec![],
        collateral_age: 0,
        superblock_period: 1,
        extra_rounds: 0,
        minimum_difficulty: 0,
        epochs_with_minimum_difficulty: 0,
        superblock_signing_committee_size: 100,
        superblock_committee_decreasing_period: 100,
        superblock_committee_decreasing_step: 5,
        initial_block_reward: 250 * 1_000_000_000,
        halving_period: 3_500_000,
    }
}
pub fn params(use_unconfirmed: bool, batch: u16, timeout: u64, genesis: Hash) -> Params {
    Params {
        testnet: false,
        seed_password: "".into(),
        master_key_salt: b"Bitcoin seed".to_vec(),
        id_hash_iterations: 1,
        id_hash_function: HashFunction::Sha256,
        db_hash_iterations: 1,
        db_iv_length: 16,
        db_salt_length: 32,
        epoch_constants: EpochConstants { checkpoint_zero_timestamp: ZERO as i64, checkpoints_period: PERIOD as u16, ..EpochConstants::default() },
        node_sync_batch_size: 2,
        genesis_hash: genesis,
        genesis_prev_hash: bootstrap(),
        sync_address_batch_length: batch,
        max_vt_weight: 20_000,
        max_dr_weight: 80_000,
        consensus_constants: consensus(),
        use_unconfirmed_utxos: use_unconfirmed,
        pending_transactions_timeout_seconds: timeout,
        witnessing: WitnessingConfig::default(),
        protocol_info: versions(),
    }
}

pub struct World {
    pub node: Arc<Mutex<Node>>,
    pub db: Arc<rocksdb::DB>,
    pub worker: Addr<Worker>,
    pub params: Params,
    pub sink: types::DynamicSink,
    pub wallet: Option<types::SessionWallet>,
    pub id: String,
}

pub fn start(db: &Arc<rocksdb::DB>, node: &Arc<Mutex<Node>>, params: &Params) -> Addr<Worker> {
    let n = node.clone();
    let client = JsonRpcClient::local(move |m, p| n.lock().unwrap_or_else(|e| e.into_inner()).answer(m, p));
    let node_params = NodeParams {
        client: Arc::new(NodeClient { actor: client }),
        last_beacon: Arc::new(RwLock::new(CheckpointBeacon { checkpoint: 0, hash_prev_block: bootstrap() })),
        network: "test".into(),
        requests_timeout: Duration::from_secs(1),
        subscriptions: Default::default(),
        protocol_info: versions(),
    };
    Worker::start(1, db.clone(), node_params, params.clone())
}

pub const PASSWORD: &str = "correct horse";

impl World {
    /// A node with a genesis block, and an empty wallet database.
    pub fn empty(use_unconfirmed: bool, batch: u16, timeout: u64, genesis: BlockTransactions) -> World {
        let mut n = Node::default();
        let g = n.mine(0, genesis);
        n.confirmed = 1;
        let params = params(use_unconfirmed, batch, timeout, block_hash(&g));
        let node = Arc::new(Mutex::new(n));
        let db = Arc::new(rocksdb::DB::in_memory());
        let worker = start(&db, &node, &params);
        let sink: types::DynamicSink = Arc::new(RwLock::new(Some(Default::default())));
        World { node, db, worker, params, sink, wallet: None, id: String::new() }
    }
    pub fn create(&self, seed_source: types::SeedSource, name: Option<&str>, description: Option<&str>, overwrite: bool, birth_date: Option<types::BirthDate>) -> worker::Result<String> {
        self.worker.call(worker::CreateWallet { name: name.map(Into::into), description: description.map(Into::into), password: PASSWORD.into(), seed_source, overwrite, birth_date })
    }
    /// Creates and opens the wallet under test.
    pub fn with_wallet(mut self) -> Result<World, String> {
        let id = self.create(types::SeedSource::Xprv(keys().xprv.as_str().into()), Some("w"), None, false, None).map_err(|e| format!("create: {e}"))?;
        self.id = id;
        self.open(PASSWORD)?;
        Ok(self)
    }
    pub fn open(&mut self, password: &str) -> Result<(), String> {
        let u = self.worker.call(worker::UnlockWallet { id: self.id.clone(), password: password.into() }).map_err(|e| format!("unlock: {e}"))?;
        self.wallet = Some(u.wallet);
        Ok(())
    }
    pub fn w(&self) -> &types::SessionWallet {
        self.wallet.as_ref().unwrap()
    }
    /// The wallet process ends, `db` is what is on disk, and it starts again.
    pub fn restart(&mut self, db: Arc<rocksdb::DB>) -> Result<(), String> {
        self.db = db;
        self.worker = start(&self.db, &self.node, &self.params);
        self.open(PASSWORD)
    }
    pub fn sync(&self) -> worker::Result<()> {
        self.worker.call(worker::SyncRequest { wallet_id: self.id.clone(), wallet: self.w().clone(), sink: self.sink.clone() })
    }
    pub fn block(&self, b: &Block) -> worker::Result<()> {
        self.worker.call(worker::HandleBlockRequest { block: Arc::new(b.clone()), wallet: self.w().clone(), sink: self.sink.clone() })
    }
    pub fn superblock(&self, hashes: Vec<String>) -> worker::Result<()> {
        let superblock_notification = types::SuperBlockNotification { superblock: SuperBlock::default(), consolidated_block_hashes: hashes };
        self.worker.call(worker::HandleSuperBlockRequest { superblock_notification, wallet: self.w().clone(), sink: self.sink.clone() })
    }
    pub fn resync(&self) -> worker::Result<bool> {
        self.worker.call(worker::Resync { wallet_id: self.id.clone(), wallet: self.w().clone(), sink: self.sink.clone() })
    }
    pub fn node_synced(&self) -> worker::Result<()> {
        self.worker.call(worker::NodeStatusRequest { status: witnet_data_structures::chain::StateMachine::Synced, wallet: self.w().clone(), sink: self.sink.clone() })
    }
    pub fn transactions(&self, offset: u32, limit: u32) -> Result<model::WalletTransactions, String> {
        self.worker.call(worker::GetTransactions { wallet: self.w().clone(), offset, limit }).map_err(|e| format!("transactions: {e}"))
    }
    pub fn addresses(&self, external: bool, offset: u32, limit: u32) -> Result<model::Addresses, String> {
        self.worker.call(worker::GetAddresses { wallet: self.w().clone(), offset, limit, external }).map_err(|e| format!("addresses: {e}"))
    }
    pub fn gen_address(&self, external: bool, label: Option<&str>) -> Result<model::Address, String> {
        self.worker.call(worker::GenAddress { wallet: self.w().clone(), external, label: label.map(Into::into) }).map_err(|e| format!("gen_address: {e}"))
    }
}
