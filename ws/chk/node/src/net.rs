//! Whole nodes, in one process and under one scheduler: what the node starts, over a disk that keeps
//! a log of what was written to it, connections that are pipes, and a clock that only moves when told.
use actix::{Actor, Addr, SystemRegistry, world};
use rocksdb::DB;
use std::{cell::RefCell, net::SocketAddr, path::PathBuf, sync::Arc, sync::OnceLock, time::Duration};
use tokio::net::{Pipe, TcpStream};
use witnet_config::config::{Config, StorageBackend};
use witnet_crypto::key::{ExtendedSK, MasterKeyGen};
use witnet_data_structures::chain::*;
use witnet_node::actors::{
    chain_manager::ChainManager, connections_manager::{self, ConnectionsManager}, epoch_manager::EpochManager, inventory_manager::InventoryManager,
    json_rpc::JsonRpcServer, messages::*, node::{NodeOps, PutNodeOps as _}, peers_manager::PeersManager, rad_manager::RadManager, sessions_manager::SessionsManager,
};
use witnet_p2p::sessions::SessionType;

/// When the first epoch starts.
pub const ZERO: i64 = 1_700_000_000;
pub const PERIOD: u16 = 40;

pub fn master_key(n: usize) -> ExtendedSK {
    MasterKeyGen::new([n as u8 + 1; 32]).generate().unwrap()
}
pub fn secret(n: usize) -> witnet_data_structures::chain::SecretKey {
    master_key(n).secret_key.into()
}
pub fn pkh(n: usize) -> PublicKeyHash {
    let pk = witnet_crypto::key::ExtendedPK::from_secret_key(&master_key(n));
    PublicKeyHash::from_public_key(&pk.key.into())
}
pub fn bls(n: usize) -> Bn256SecretKey {
    let mut b = [7; 32];
    b[31] = n as u8 + 1;
    Bn256SecretKey::from_slice(&b).unwrap()
}
pub fn addr(n: usize) -> SocketAddr {
    format!("10.{}.0.1:21337", n + 1).parse().unwrap()
}
/// The genesis file: every node's key holds some coins.
pub fn genesis() -> &'static (PathBuf, Hash) {
    static G: OnceLock<(PathBuf, Hash)> = OnceLock::new();
    G.get_or_init(|| {
        let outs: Vec<String> = (0..4)
            .map(|n| {
                let one = |v: u64| format!(r#"{{"address":"{}","value":"{v}","timelock":"0"}}"#, pkh(n));
                format!("[{},{},{}]", one(30_000_000_000), one(20_000_000_000), one(50_000_000_000))
            })
            .collect();
        let text = format!(r#"{{"alloc":[{}]}}"#, outs.join(","));
        let dir = std::env::temp_dir().join(format!("chk-node-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join("genesis_block.json");
        std::fs::write(&path, &text).unwrap();
        let info: GenesisBlockInfo = serde_json::from_str(&text).unwrap();
        (path, info.build_genesis_block(Hash::SHA256([9; 32])).hash())
    })
}
/// Takes away what `genesis` put on the real disk.
pub fn clean() {
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("chk-node-{}", std::process::id())));
}
#[derive(Clone)]
pub struct Opts {
    pub nodes: usize,
    pub outbound: u16,
    pub superblock_period: u16,
    pub mining: bool,
    pub utxos_in_memory: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { nodes: 2, outbound: 1, superblock_period: 5, mining: true, utxos_in_memory: true }
    }
}
pub fn config(n: usize, o: &Opts) -> Config {
    let mut c = Config::default();
    c.environment = Environment::Development;
    let g = genesis();
    let k = &mut c.consensus_constants;
    k.checkpoint_zero_timestamp = ZERO;
    k.checkpoints_period = PERIOD;
    k.bootstrap_hash = Hash::SHA256([9; 32]);
    k.genesis_hash = g.1;
    k.superblock_period = o.superblock_period;
    k.bootstrapping_committee = (0..o.nodes).map(|n| pkh(n).to_string()).collect();
    k.collateral_age = 1;
    // Everybody is always eligible to propose a block
    k.minimum_difficulty = 1;
    k.epochs_with_minimum_difficulty = u32::MAX;
    k.mining_replication_factor = 8;
    k.mining_backup_factor = 8;
    c.mining.genesis_path = g.0.to_str().unwrap().into();
    c.mining.enabled = o.mining;
    c.storage.backend = StorageBackend::RocksDB;
    c.storage.db_path = format!("/node-{n}").into();
    c.storage.utxos_in_memory = o.utxos_in_memory;
    c.storage.master_key_import_path = None;
    c.connections.outbound_limit = o.outbound;
    c.connections.server_addr = addr(n);
    c.connections.public_addr = Some(addr(n));
    c.connections.known_peers = (0..o.nodes).filter(|m| *m != n).map(addr).collect();
    c.connections.bucketing_ice_period = Duration::from_secs(10);
    c.connections.check_melted_peers_period = Duration::from_secs(5);
    c.ntp.enabled = false;
    c.jsonrpc.enabled = true;
    c
}
pub struct Node {
    pub n: usize,
    /// Which node this is to the scheduler (a node that is started again is another one)
    pub id: usize,
    pub disk: DB,
    pub config: Arc<Config>,
    pub peers: Addr<PeersManager>,
    pub sessions: Addr<SessionsManager>,
    pub epochs: Addr<EpochManager>,
    pub chain: Addr<ChainManager>,
    pub inventory: Addr<InventoryManager>,
    pub rad: Addr<RadManager>,
}
/// A disk on which node n has its keys, and nothing else.
pub fn disk(n: usize) -> DB {
    let d = DB::in_memory();
    let key = |k: &[u8]| bincode::serialize(&k).unwrap();
    d.put(key(b"master_key"), bincode::serialize(&ExtendedSecretKey::from(master_key(n))).unwrap()).unwrap();
    d.put(key(b"bn256_secret_key"), bincode::serialize(&bls(n)).unwrap()).unwrap();
    d
}
/// Starts afresh, with nobody there, at this time since the first epoch's start.
pub fn begin(at: i64) {
    world::reset();
    LAST.with(|l| *l.borrow_mut() = 0);
    connections_manager::ASKED.with(|a| a.borrow_mut().clear());
    // What a node leaves to chance is the same every time
    let mut x = 0x9e37_79b9_7f4a_7c15_u64;
    rand::drive(Some(Box::new(move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    })));
    DB::unmount_all();
    chrono::set_clock(Some(Box::new(move || Duration::from_secs((ZERO + at) as u64) + world::now())));
}
/// Everybody is gone.
pub fn end(nodes: &[Node]) {
    for n in nodes {
        n.disk.wipe()
    }
    world::reset();
    DB::unmount_all();
}
thread_local! {
    /// The last node that was started.
    static LAST: RefCell<usize> = const { RefCell::new(0) };
}
/// What `witnet node server` starts, in the same order.
pub fn boot(n: usize, disk: DB, o: &Opts) -> Node {
    // A node that is started again is another one to the scheduler
    let id = LAST.with(|l| {
        *l.borrow_mut() += 1;
        *l.borrow()
    });
    world::set_node(id);
    let config = Arc::new(config(n, o));
    disk.mount(&format!("/node-{n}"));
    witnet_node::config_mngr::start(config.clone());
    witnet_node::storage_mngr::start();
    witnet_node::signature_mngr::start();
    let peers = PeersManager::from_config(&config).start();
    SystemRegistry::set(peers.clone());
    SystemRegistry::set(ConnectionsManager.start());
    let sessions = SessionsManager::default().start();
    SystemRegistry::set(sessions.clone());
    let epochs = EpochManager::default().start();
    SystemRegistry::set(epochs.clone());
    let mut cm = ChainManager::default();
    cm.put_node_ops(NodeOps::default());
    let chain = cm.start();
    SystemRegistry::set(chain.clone());
    let inventory = InventoryManager.start();
    SystemRegistry::set(inventory.clone());
    let rad = RadManager::from_config(witnet_validations::witnessing::validate_witnessing_config::<String, witnet_rad::Uri>(&config.witnessing.clone().into_config()).unwrap()).start();
    SystemRegistry::set(rad.clone());
    SystemRegistry::set(JsonRpcServer::from_config(&config).start());
    world::settle();
    Node { n, id, disk, config, peers, sessions, epochs, chain, inventory, rad }
}
pub struct Link {
    pub a_to_b: Pipe,
    pub b_to_a: Pipe,
}
/// a connects to b.
pub fn connect(a: &Node, b: &Node, kind: SessionType, port: u16) -> Link {
    let l = Link { a_to_b: Pipe::default(), b_to_a: Pipe::default() };
    let from: SocketAddr = format!("10.{}.0.1:{port}", a.n + 1).parse().unwrap();
    a.sessions.do_send(Create { stream: TcpStream::new(addr(b.n), l.b_to_a.clone(), l.a_to_b.clone()), session_type: kind });
    b.sessions.do_send(Create { stream: TcpStream::new(from, l.a_to_b.clone(), l.b_to_a.clone()), session_type: SessionType::Inbound });
    world::settle();
    l
}
impl Node {
    pub fn ask<M: actix::Message + 'static>(&self, m: M) -> M::Result
    where
        ChainManager: actix::Handler<M>,
    {
        world::block_on(self.chain.send(m)).expect("the chain manager is gone")
    }
    pub fn ask_info(&self, dr: Hash) -> Result<DataRequestInfo, String> {
        self.ask(GetDataRequestInfo { dr_pointer: dr }).map_err(|e| e.to_string())
    }
    pub fn beacon(&self) -> CheckpointBeacon {
        self.ask(GetHighestCheckpointBeacon).expect("no beacon")
    }
}
