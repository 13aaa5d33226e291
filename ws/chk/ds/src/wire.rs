//! What goes over the wire: the bytes of every message in every version of the protocol, what they are
//! read as, and what becomes of bytes that are not a message.
use mc::{Ch, Run, ensure, explore, same};
use std::panic::{AssertUnwindSafe, catch_unwind};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::ProtobufConvert;
use witnet_data_structures::proto::versioning::{ProtocolVersion, Versioned, VersionedHashable};
use witnet_data_structures::staking::helpers::StakeKey;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::*;
use witnet_data_structures::vrf::*;
use witnet_crypto::hash::calculate_sha256;

pub const VERSIONS: [ProtocolVersion; 4] = [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1];

// -- the format ---------------------------------------------------------------------------------

/// A field as it goes over the wire.
#[derive(Clone)]
enum W {
    /// variable length; absent if zero
    V(u64),
    F32(u32),
    F64(u64),
    /// absent if empty
    B(Vec<u8>),
    /// always there
    M(Vec<u8>),
    /// always there, even if empty (alternatives)
    OneB(Vec<u8>),
    OneV(u64),
    Many(Vec<Vec<u8>>),
}
fn varint(o: &mut Vec<u8>, mut v: u64) {
    loop {
        let low = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            o.push(low);
            return;
        }
        o.push(low + 128);
    }
}
/// The fields of a message, numbered from 1.
fn msg(fields: &[(u32, W)]) -> Vec<u8> {
    let mut o = vec![];
    let head = |o: &mut Vec<u8>, n: u32, kind: u32| varint(o, (n * 8 + kind) as u64);
    for (n, w) in fields {
        match w {
            W::V(0) | W::F32(0) | W::F64(0) => {}
            W::V(v) | W::OneV(v) => {
                head(&mut o, *n, 0);
                varint(&mut o, *v);
            }
            W::F64(v) => {
                head(&mut o, *n, 1);
                o.extend(v.to_le_bytes());
            }
            W::F32(v) => {
                head(&mut o, *n, 5);
                o.extend(v.to_le_bytes());
            }
            W::B(b) if b.is_empty() => {}
            W::B(b) | W::M(b) | W::OneB(b) => {
                head(&mut o, *n, 2);
                varint(&mut o, b.len() as u64);
                o.extend(b);
            }
            W::Many(v) => {
                for b in v {
                    head(&mut o, *n, 2);
                    varint(&mut o, b.len() as u64);
                    o.extend(b);
                }
            }
        }
    }
    o
}
fn fields(v: Vec<W>) -> Vec<u8> {
    msg(&v.into_iter().enumerate().map(|(i, w)| (i as u32 + 1, w)).collect::<Vec<_>>())
}
fn all<T>(v: &[T], f: impl Fn(&T) -> Vec<u8>) -> W {
    W::Many(v.iter().map(f).collect())
}
fn whash(h: &Hash) -> Vec<u8> {
    let Hash::SHA256(h) = h;
    fields(vec![W::OneB(h.to_vec())])
}
fn h(x: &Hash) -> W {
    W::M(whash(x))
}
fn wpkh(p: &PublicKeyHash) -> Vec<u8> {
    fields(vec![W::B(p.as_ref().to_vec())])
}
fn wpk(p: &PublicKey) -> Vec<u8> {
    fields(vec![W::B([&[p.compressed][..], &p.bytes].concat())])
}
fn wks(k: &KeyedSignature) -> Vec<u8> {
    let Signature::Secp256k1(s) = &k.signature;
    fields(vec![W::M(fields(vec![W::OneB(fields(vec![W::B(s.der.clone())]))])), W::M(wpk(&k.public_key))])
}
fn wvrf(p: &VrfProof) -> Vec<u8> {
    let s = serde_json::to_value(p).unwrap();
    let proof: Vec<u8> = serde_json::from_value(s["proof"].clone()).unwrap();
    let key: PublicKey = serde_json::from_value(s["public_key"].clone()).unwrap();
    fields(vec![W::B(proof), W::M(wpk(&key))])
}
fn wbn(b: &Option<Bn256PublicKey>) -> Vec<u8> {
    fields(vec![W::B(b.as_ref().map_or(vec![], |b| b.public_key.clone()))])
}
fn winput(i: &Input) -> Vec<u8> {
    let p = i.output_pointer();
    fields(vec![W::M(fields(vec![h(&p.transaction_id), W::V(p.output_index as u64)]))])
}
fn wvto(v: &ValueTransferOutput) -> Vec<u8> {
    fields(vec![W::M(wpkh(&v.pkh)), W::V(v.value), W::V(v.time_lock)])
}
fn wfilters(f: &[RADFilter], reducer: u32) -> Vec<u8> {
    fields(vec![all(f, |f| fields(vec![W::V(f.op as u64), W::B(f.args.clone())])), W::V(reducer as u64)])
}
fn wdro(d: &DataRequestOutput) -> Vec<u8> {
    let r = &d.data_request;
    let kind = |k: RADType| match k {
        RADType::Unknown => 0,
        RADType::HttpGet => 1,
        RADType::Rng => 2,
        RADType::HttpPost => 3,
        RADType::HttpHead => 4,
    };
    let retrieve = all(&r.retrieve, |r| {
        let headers = all(&r.headers, |(a, b)| fields(vec![W::B(a.clone().into()), W::B(b.clone().into())]));
        fields(vec![W::V(kind(r.kind.clone())), W::B(r.url.clone().into()), W::B(r.script.clone()), W::B(r.body.clone()), headers])
    });
    let request = fields(vec![W::V(r.time_lock), retrieve, W::M(wfilters(&r.aggregate.filters, r.aggregate.reducer)), W::M(wfilters(&r.tally.filters, r.tally.reducer))]);
    fields(vec![W::M(request), W::V(d.witness_reward), W::V(d.witnesses as u64), W::V(d.commit_and_reveal_fee), W::V(d.min_consensus_percentage as u64), W::V(d.collateral)])
}
fn wmint(m: &MintTransaction) -> Vec<u8> {
    fields(vec![W::F32(m.epoch), all(&m.outputs, wvto)])
}
fn wvtbody(b: &VTTransactionBody) -> Vec<u8> {
    fields(vec![all(&b.inputs, winput), all(&b.outputs, wvto)])
}
fn wdrbody(b: &DRTransactionBody) -> Vec<u8> {
    fields(vec![all(&b.inputs, winput), all(&b.outputs, wvto), W::M(wdro(&b.dr_output))])
}
fn wcobody(b: &CommitTransactionBody) -> Vec<u8> {
    fields(vec![h(&b.dr_pointer), h(&b.commitment), W::M(fields(vec![W::M(wvrf(&b.proof.proof))])), all(&b.collateral, winput), all(&b.outputs, wvto), W::M(wbn(&b.bn256_public_key))])
}
fn wrebody(b: &RevealTransactionBody) -> Vec<u8> {
    fields(vec![h(&b.dr_pointer), W::B(b.reveal.clone()), W::M(wpkh(&b.pkh))])
}
fn wtally(t: &TallyTransaction) -> Vec<u8> {
    fields(vec![h(&t.dr_pointer), W::B(t.tally.clone()), all(&t.outputs, wvto), all(&t.out_of_consensus, wpkh), all(&t.error_committers, wpkh)])
}
fn wstbody(b: &StakeTransactionBody) -> Vec<u8> {
    let key = fields(vec![W::M(wpkh(&b.output.key.validator)), W::M(wpkh(&b.output.key.withdrawer))]);
    let output = fields(vec![W::V(b.output.value), W::M(key), W::M(wks(&b.output.authorization))]);
    fields(vec![all(&b.inputs, winput), W::M(output), W::M(wvto(&b.change.clone().unwrap_or_default()))])
}
fn wunbody(b: &UnstakeTransactionBody) -> Vec<u8> {
    fields(vec![W::M(wpkh(&b.operator)), W::M(wvto(&b.withdrawal)), W::V(b.fee), W::V(b.nonce)])
}
fn wsigned(body: Vec<u8>, s: &[KeyedSignature]) -> Vec<u8> {
    fields(vec![W::M(body), all(s, wks)])
}
fn wtx(t: &Transaction) -> Vec<u8> {
    let (n, b) = match t {
        Transaction::ValueTransfer(t) => (1, wsigned(wvtbody(&t.body), &t.signatures)),
        Transaction::DataRequest(t) => (2, wsigned(wdrbody(&t.body), &t.signatures)),
        Transaction::Commit(t) => (3, wsigned(wcobody(&t.body), &t.signatures)),
        Transaction::Reveal(t) => (4, wsigned(wrebody(&t.body), &t.signatures)),
        Transaction::Tally(t) => (5, wtally(t)),
        Transaction::Mint(t) => (6, wmint(t)),
        Transaction::Stake(t) => (7, wsigned(wstbody(&t.body), &t.signatures)),
        Transaction::Unstake(t) => (8, fields(vec![W::M(wunbody(&t.body)), W::M(wks(&t.signature))])),
    };
    msg(&[(n, W::OneB(b))])
}
fn wbeacon(b: &CheckpointBeacon) -> Vec<u8> {
    fields(vec![W::F32(b.checkpoint), h(&b.hash_prev_block)])
}
/// Before 1.8 there were no stakes.
fn wheader(b: &BlockHeader, v: ProtocolVersion) -> Vec<u8> {
    let m = &b.merkle_roots;
    let mut roots = vec![h(&m.mint_hash), h(&m.vt_hash_merkle_root), h(&m.dr_hash_merkle_root), h(&m.commit_hash_merkle_root), h(&m.reveal_hash_merkle_root), h(&m.tally_hash_merkle_root)];
    if v != ProtocolVersion::V1_7 {
        roots.extend([h(&m.stake_hash_merkle_root), h(&m.unstake_hash_merkle_root)]);
    }
    fields(vec![W::V(b.signals as u64), W::M(wbeacon(&b.beacon)), W::M(fields(roots)), W::M(fields(vec![W::M(wvrf(&b.proof.proof))])), W::M(wbn(&b.bn256_public_key))])
}
fn wblock(b: &Block, v: ProtocolVersion) -> Vec<u8> {
    let t = &b.txns;
    let mut txns = vec![
        W::M(wmint(&t.mint)),
        all(&t.value_transfer_txns, |t| wsigned(wvtbody(&t.body), &t.signatures)),
        all(&t.data_request_txns, |t| wsigned(wdrbody(&t.body), &t.signatures)),
        all(&t.commit_txns, |t| wsigned(wcobody(&t.body), &t.signatures)),
        all(&t.reveal_txns, |t| wsigned(wrebody(&t.body), &t.signatures)),
        all(&t.tally_txns, wtally),
    ];
    if v != ProtocolVersion::V1_7 {
        txns.extend([all(&t.stake_txns, |t| wsigned(wstbody(&t.body), &t.signatures)), all(&t.unstake_txns, |t| fields(vec![W::M(wunbody(&t.body)), W::M(wks(&t.signature))]))]);
    }
    fields(vec![W::M(wheader(&b.block_header, v)), W::M(wks(&b.block_sig)), W::M(fields(txns))])
}
fn waddress(a: &Address) -> Vec<u8> {
    let mut b = match a.ip {
        IpAddress::Ipv4 { ip } => ip.to_be_bytes().to_vec(),
        IpAddress::Ipv6 { ip0, ip1, ip2, ip3 } => [ip0, ip1, ip2, ip3].iter().flat_map(|x| x.to_be_bytes()).collect(),
    };
    b.extend(a.port.to_be_bytes());
    fields(vec![W::B(b)])
}
fn wlast(l: &LastBeacon) -> Vec<u8> {
    fields(vec![W::M(wbeacon(&l.highest_block_checkpoint)), W::M(wbeacon(&l.highest_superblock_checkpoint))])
}
fn wsuper(s: &SuperBlock) -> Vec<u8> {
    fields(vec![W::V(s.signing_committee_length as u64), h(&s.ars_root), h(&s.data_request_root), W::V(s.index as u64), h(&s.last_block), h(&s.last_block_in_previous_superblock), h(&s.tally_root)])
}
fn wentries(v: &[InventoryEntry]) -> Vec<u8> {
    fields(vec![all(v, |e| match e {
        InventoryEntry::Block(x) => msg(&[(1, h(x))]),
        InventoryEntry::Tx(x) => msg(&[(2, h(x))]),
        InventoryEntry::SuperBlock(x) => msg(&[(3, W::OneV(*x as u64))]),
    })])
}
fn wmessage(m: &Message, v: ProtocolVersion) -> Vec<u8> {
    let (n, b) = match &m.kind {
        Command::Version(x) => (1, fields(vec![W::V(x.version as u64), W::V(x.timestamp as u64), W::F64(x.capabilities), W::M(waddress(&x.sender_address)), W::M(waddress(&x.receiver_address)), W::B(x.user_agent.clone().into()), W::F64(x.nonce), W::M(wlast(&x.beacon))])),
        Command::Verack(_) => (2, vec![]),
        Command::GetPeers(_) => (3, vec![]),
        Command::Peers(x) => (4, fields(vec![all(&x.peers, waddress)])),
        Command::Block(x) => (5, wblock(x, v)),
        Command::InventoryAnnouncement(x) => (6, wentries(&x.inventory)),
        Command::InventoryRequest(x) => (7, wentries(&x.inventory)),
        Command::LastBeacon(x) => (8, wlast(x)),
        Command::Transaction(x) => (9, wtx(x)),
        Command::SuperBlockVote(x) => {
            let s = fields(vec![W::B(x.bn256_signature.signature.clone())]);
            (10, fields(vec![W::M(s), W::M(wks(&x.secp256k1_signature)), h(&x.superblock_hash), W::F32(x.superblock_index)]))
        }
        Command::SuperBlock(x) => (11, wsuper(x)),
    };
    fields(vec![W::V(m.magic as u64), W::M(msg(&[(n, W::OneB(b))]))])
}

// -- values -------------------------------------------------------------------------------------

/// Chooses values which differ from ordinary ones in at most so many places.
struct G<'a> {
    c: &'a mut Ch,
    left: usize,
}
impl G<'_> {
    fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        if self.left == 0 || xs.len() == 1 {
            return xs[0].clone();
        }
        let i = self.c.pick(xs.len());
        self.left -= (i > 0) as usize;
        xs[i].clone()
    }
    fn u32(&mut self, n: u32) -> u32 {
        self.of(&[n, 0, 127, 128, u32::MAX])
    }
    fn u64(&mut self, n: u64) -> u64 {
        self.of(&[n, 0, 1 << 35, u64::MAX])
    }
    fn u16(&mut self, n: u16) -> u16 {
        self.of(&[n, 0, u16::MAX])
    }
    fn hash(&mut self, n: u8) -> Hash {
        self.of(&[Hash::SHA256([n; 32]), Hash::default(), Hash::SHA256([255; 32])])
    }
    fn pkh(&mut self, n: u8) -> PublicKeyHash {
        self.of(&[PublicKeyHash::from_bytes(&[n; 20]).unwrap(), PublicKeyHash::default(), PublicKeyHash::from_bytes(&[255; 20]).unwrap()])
    }
    fn bytes(&mut self, n: u8) -> Vec<u8> {
        self.of(&[vec![n, n + 1], vec![], vec![0], vec![n; 200]])
    }
    fn text(&mut self) -> String {
        self.of(&["ab".to_string(), String::new(), "ñ€\u{1F600}\0".to_string()])
    }
    fn pk(&mut self, n: u8) -> PublicKey {
        self.of(&[PublicKey { compressed: 3, bytes: [n; 32] }, PublicKey::default(), PublicKey { compressed: 255, bytes: [255; 32] }])
    }
    fn ks(&mut self, n: u8) -> KeyedSignature {
        KeyedSignature { signature: Signature::Secp256k1(Secp256k1Signature { der: self.bytes(n) }), public_key: self.pk(n) }
    }
    fn list<T>(&mut self, lengths: &[usize], mut f: impl FnMut(&mut Self, u8) -> T) -> Vec<T> {
        let n = self.of(lengths);
        (0..n).map(|i| f(self, i as u8 + 20)).collect()
    }
    fn input(&mut self, n: u8) -> Input {
        Input::new(OutputPointer { transaction_id: self.hash(n), output_index: self.u32(1) })
    }
    fn vto(&mut self, n: u8) -> ValueTransferOutput {
        ValueTransferOutput { pkh: self.pkh(n), value: self.u64(300), time_lock: self.u64(5) }
    }
    fn proof(&mut self, n: u8) -> VrfProof {
        serde_json::from_value(serde_json::json!({"proof": self.bytes(n), "public_key": self.pk(n)})).unwrap()
    }
    fn bn(&mut self) -> Option<Bn256PublicKey> {
        let b = self.of(&[Some(vec![2; 65]), None, Some(vec![1])]);
        b.map(|b| {
            let mut k = Bn256PublicKey::default();
            k.public_key = b;
            k
        })
    }
    fn filters(&mut self) -> Vec<RADFilter> {
        self.list(&[1, 0, 2], |g, _| RADFilter { op: g.u32(5), args: g.bytes(1) })
    }
    fn dro(&mut self) -> DataRequestOutput {
        let retrieve = self.list(&[1, 0, 2], |g, _| RADRetrieve {
            kind: g.of(&[RADType::HttpGet, RADType::Unknown, RADType::Rng, RADType::HttpPost, RADType::HttpHead]),
            url: g.text(),
            script: g.bytes(7),
            body: g.bytes(8),
            headers: g.list(&[1, 0, 2], |g, _| (g.text(), g.text())),
        });
        let (a, t) = (self.filters(), self.filters());
        DataRequestOutput {
            data_request: RADRequest { time_lock: self.u64(9), retrieve, aggregate: RADAggregate { filters: a, reducer: self.u32(3) }, tally: RADTally { filters: t, reducer: self.u32(2) } },
            witness_reward: self.u64(10),
            witnesses: self.u16(3),
            commit_and_reveal_fee: self.u64(2),
            min_consensus_percentage: self.u32(51),
            collateral: self.u64(1 << 30),
        }
    }
    fn signatures(&mut self) -> Vec<KeyedSignature> {
        self.list(&[1, 0, 2], |g, i| g.ks(i))
    }
    fn inputs(&mut self) -> Vec<Input> {
        self.list(&[1, 0, 2], |g, i| g.input(i))
    }
    fn outputs(&mut self) -> Vec<ValueTransferOutput> {
        self.list(&[1, 0, 2], |g, i| g.vto(i))
    }
    fn vt(&mut self) -> VTTransaction {
        VTTransaction::new(VTTransactionBody::new(self.inputs(), self.outputs()), self.signatures())
    }
    fn dr(&mut self) -> DRTransaction {
        let (i, d, o) = (self.inputs(), self.dro(), self.outputs());
        DRTransaction::new(DRTransactionBody::new(i, d, o), self.signatures())
    }
    fn co(&mut self) -> CommitTransaction {
        let claim = DataRequestEligibilityClaim { proof: self.proof(4) };
        CommitTransaction::new(CommitTransactionBody::new(self.hash(1), self.hash(2), claim, self.inputs(), self.outputs(), self.bn()), self.signatures())
    }
    fn re(&mut self) -> RevealTransaction {
        RevealTransaction::new(RevealTransactionBody::new(self.hash(1), self.bytes(3), self.pkh(4)), self.signatures())
    }
    fn ta(&mut self) -> TallyTransaction {
        TallyTransaction::new(self.hash(1), self.bytes(3), self.outputs(), self.list(&[1, 0, 2], |g, i| g.pkh(i)), self.list(&[2, 0, 1], |g, i| g.pkh(i + 10)))
    }
    fn mint(&mut self) -> MintTransaction {
        MintTransaction::new(self.u32(1000), self.outputs())
    }
    fn st(&mut self) -> StakeTransaction {
        let key = StakeKey { validator: self.pkh(6), withdrawer: self.pkh(7) };
        let output = StakeOutput { value: self.u64(40), key, authorization: self.ks(9) };
        // no change is no output at all
        let change = if self.of(&[true, false]) { Some(self.vto(11)) } else { None }.filter(|x| *x != ValueTransferOutput::default());
        StakeTransaction::new(StakeTransactionBody::new(self.inputs(), output, change), self.signatures())
    }
    fn un(&mut self) -> UnstakeTransaction {
        UnstakeTransaction::new(UnstakeTransactionBody::new(self.pkh(6), self.vto(7), self.u64(8), self.u64(1)), self.ks(5))
    }
    fn tx(&mut self, kind: usize) -> Transaction {
        match kind {
            0 => Transaction::ValueTransfer(self.vt()),
            1 => Transaction::DataRequest(self.dr()),
            2 => Transaction::Commit(self.co()),
            3 => Transaction::Reveal(self.re()),
            4 => Transaction::Tally(self.ta()),
            5 => Transaction::Mint(self.mint()),
            6 => Transaction::Stake(self.st()),
            _ => Transaction::Unstake(self.un()),
        }
    }
    fn beacon(&mut self, n: u8) -> CheckpointBeacon {
        CheckpointBeacon { checkpoint: self.u32(300), hash_prev_block: self.hash(n) }
    }
    fn last(&mut self) -> LastBeacon {
        LastBeacon { highest_block_checkpoint: self.beacon(1), highest_superblock_checkpoint: self.beacon(2) }
    }
    /// Before version 1.8 blocks know nothing of stakes.
    fn block(&mut self, old: bool) -> Block {
        let some = [0, 1, 2];
        let merkle_roots = BlockMerkleRoots {
            mint_hash: self.hash(1),
            vt_hash_merkle_root: self.hash(2),
            dr_hash_merkle_root: self.hash(3),
            commit_hash_merkle_root: self.hash(4),
            reveal_hash_merkle_root: self.hash(5),
            tally_hash_merkle_root: self.hash(6),
            stake_hash_merkle_root: if old { Hash::default() } else { self.hash(7) },
            unstake_hash_merkle_root: if old { Hash::default() } else { self.hash(8) },
        };
        let header = BlockHeader { signals: self.u32(1), beacon: self.beacon(9), merkle_roots, proof: BlockEligibilityClaim { proof: self.proof(10) }, bn256_public_key: self.bn() };
        let txns = BlockTransactions {
            mint: self.mint(),
            value_transfer_txns: self.list(&some, |g, _| g.vt()),
            data_request_txns: self.list(&some, |g, _| g.dr()),
            commit_txns: self.list(&some, |g, _| g.co()),
            reveal_txns: self.list(&some, |g, _| g.re()),
            tally_txns: self.list(&some, |g, _| g.ta()),
            stake_txns: if old { vec![] } else { self.list(&some, |g, _| g.st()) },
            unstake_txns: if old { vec![] } else { self.list(&some, |g, _| g.un()) },
        };
        Block::new(header, self.ks(12), txns)
    }
    fn address(&mut self) -> Address {
        let ip = self.of(&[IpAddress::Ipv4 { ip: 0x7f000001 }, IpAddress::Ipv4 { ip: 0 }, IpAddress::Ipv4 { ip: u32::MAX }, IpAddress::Ipv6 { ip0: 1, ip1: 2, ip2: 3, ip3: 4 }, IpAddress::Ipv6 { ip0: 0, ip1: 0, ip2: 0, ip3: 0 }, IpAddress::Ipv6 { ip0: u32::MAX, ip1: 0, ip2: u32::MAX, ip3: 1 }]);
        Address { ip, port: self.u16(21337) }
    }
    fn entries(&mut self) -> Vec<InventoryEntry> {
        self.list(&[2, 0, 1, 3], |g, i| {
            let x = g.hash(i);
            let n = g.u32(i as u32);
            g.of(&[InventoryEntry::Block(x), InventoryEntry::Tx(x), InventoryEntry::SuperBlock(n)])
        })
    }
    fn command(&mut self, kind: usize, old: bool) -> Command {
        match kind {
            0..=7 => Command::Transaction(self.tx(kind)),
            8 => Command::Block(self.block(old)),
            9 => Command::Version(Version {
                version: self.u32(7),
                timestamp: self.of(&[1_600_000_000, 0, -1, i64::MIN, i64::MAX]),
                capabilities: self.u64(3),
                sender_address: self.address(),
                receiver_address: self.address(),
                user_agent: self.text(),
                nonce: self.u64(1234),
                beacon: self.last(),
            }),
            10 => Command::Verack(Verack),
            11 => Command::GetPeers(GetPeers),
            12 => Command::Peers(Peers { peers: self.list(&[1, 0, 2], |g, _| g.address()) }),
            13 => Command::InventoryAnnouncement(InventoryAnnouncement { inventory: self.entries() }),
            14 => Command::InventoryRequest(InventoryRequest { inventory: self.entries() }),
            15 => Command::LastBeacon(self.last()),
            16 => {
                let mut v = SuperBlockVote::new_unsigned(self.hash(1), self.u32(4));
                v.set_bn256_signature(Bn256Signature { signature: self.bytes(3) });
                v.set_secp256k1_signature(self.ks(2));
                Command::SuperBlockVote(v)
            }
            _ => Command::SuperBlock(SuperBlock::new(self.u32(5), self.hash(1), self.hash(2), self.u32(6), self.hash(3), self.hash(4), self.hash(5))),
        }
    }
    fn message(&mut self, kind: usize, old: bool) -> Message {
        Message { magic: self.u16(0xabcd), kind: self.command(kind, old) }
    }
}
const KINDS: usize = 18;

// -- checks -------------------------------------------------------------------------------------

fn sha(b: &[u8]) -> Hash {
    Hash::SHA256(calculate_sha256(b).0)
}
fn both(data: Hash, rest: Hash) -> Hash {
    let (Hash::SHA256(a), Hash::SHA256(b)) = (data, rest);
    sha(&[a, b].concat())
}
/// What identifies a transaction: what it says, not how it is signed.
fn identity(t: &Transaction) -> Hash {
    match t {
        Transaction::ValueTransfer(t) => sha(&wvtbody(&t.body)),
        Transaction::DataRequest(t) => both(sha(&wdro(&t.body.dr_output)), sha(&wdrbody(&t.body))),
        Transaction::Commit(t) => sha(&wcobody(&t.body)),
        Transaction::Reveal(t) => sha(&wrebody(&t.body)),
        Transaction::Tally(t) => {
            let Hash::SHA256(p) = t.dr_pointer;
            both(sha(&[&p[..], &t.tally].concat()), sha(&wtally(t)))
        }
        Transaction::Mint(t) => sha(&wmint(t)),
        Transaction::Stake(t) => sha(&wstbody(&t.body)),
        Transaction::Unstake(t) => sha(&wunbody(&t.body)),
    }
}

fn there_and_back(run: &mut Run) {
    let deep = run.thorough();
    explore(run, "messages", move |c| {
        let kind = c.pick(KINDS);
        // blocks have too many parts for two deviations at a time
        let left = if deep { 2 } else if kind == 8 || kind == 1 { 1 } else { 2 };
        let old = kind == 8 && c.flag();
        let m = G { c, left }.message(kind, old);
        for v in VERSIONS {
            if (v == ProtocolVersion::V1_7) != old && kind == 8 {
                continue;
            }
            let bytes = m.to_versioned_pb_bytes(v).map_err(|e| e.to_string())?;
            let want = wmessage(&m, v);
            ensure!(bytes == want, "{m:?} is sent in {v:?} as {bytes:02x?}, not {want:02x?}");
            let back = Message::from_versioned_pb_bytes(&bytes).map_err(|e| format!("{m:?}, sent in {v:?}: {e}"))?;
            ensure!(back == m, "{m:?}, sent in {v:?}, is received as {back:?}");
            c.ops(1);
        }
        c.outcome("message");
        Ok(())
    });
    explore(run, "transactions", move |c| {
        let kind = c.pick(8);
        let left = if deep || kind != 1 { 2 } else { 1 };
        let t = G { c, left }.tx(kind);
        let id = identity(&t);
        same!(t.hash(), id, "hash of {t:?}");
        for v in VERSIONS {
            same!(t.versioned_hash(v), id, "hash in {v:?} of {t:?}");
        }
        let bytes = t.to_pb_bytes().map_err(|e| e.to_string())?;
        ensure!(bytes == wtx(&t), "{t:?} is written as {bytes:02x?}");
        let back = Transaction::from_pb_bytes(&bytes).map_err(|e| e.to_string())?;
        ensure!(back == t && back.hash() == id, "{t:?} is read as {back:?}");
        // in storage and in JSON
        let back: Transaction = bincode::deserialize(&bincode::serialize(&t).unwrap()).map_err(|e| e.to_string())?;
        ensure!(back == t && back.hash() == id, "{t:?} is loaded as {back:?}");
        let json = serde_json::to_string(&t).map_err(|e| e.to_string())?;
        let back: Transaction = serde_json::from_str(&json).map_err(|e| format!("{json}: {e}"))?;
        ensure!(back == t && back.hash() == id, "{json} is read as {back:?}");
        c.ops(4);
        c.outcome("transaction");
        Ok(())
    });
    explore(run, "blocks", move |c| {
        let old = c.flag();
        let b = G { c, left: if deep { 2 } else { 1 } }.block(old);
        for v in VERSIONS {
            if old || v != ProtocolVersion::V1_7 {
                same!(b.versioned_hash(v), sha(&wheader(&b.block_header, v)), "hash in {v:?}");
            }
        }
        let back = Block::from_pb_bytes(&b.to_pb_bytes().unwrap()).map_err(|e| e.to_string())?;
        ensure!(back == b, "{b:?} is read as {back:?}");
        let back: Block = bincode::deserialize(&bincode::serialize(&b).unwrap()).map_err(|e| e.to_string())?;
        ensure!(back == b, "{b:?} is loaded as {back:?}");
        let json = serde_json::to_string(&b).map_err(|e| e.to_string())?;
        let back: Block = serde_json::from_str(&json).map_err(|e| format!("{json}: {e}"))?;
        ensure!(back == b, "{json} is read as {back:?}");
        c.ops(3);
        c.outcome("block");
        Ok(())
    });
}

/// Reads bytes that may be anything; what is accepted must be a message that is written and read alike.
fn read(bytes: &[u8]) -> Result<bool, String> {
    let r = catch_unwind(AssertUnwindSafe(|| Message::from_versioned_pb_bytes(bytes)));
    match r {
        Err(_) => Err(format!("reading {bytes:02x?} panics")),
        Ok(Err(_)) => Ok(false),
        Ok(Ok(m)) => {
            let again = wmessage(&m, ProtocolVersion::V2_1);
            match Message::from_versioned_pb_bytes(&again) {
                Ok(n) if n == m => Ok(true),
                other => Err(format!("{bytes:02x?} is read as {m:?}, and that, written and read again, as {other:?}")),
            }
        }
    }
}
/// Every message of a few bytes.
fn small(run: &mut Run) {
    let len = run.pick(3, 4);
    explore(run, "a few bytes", move |c| {
        // the alphabet: tags of fields, lengths, and continuation
        let alphabet: &[u8] = &[0, 1, 2, 8, 10, 0x12, 0x1a, 0x2a, 0x4a, 0x52, 0x7f, 0x80, 0xff, 0x0d, 0x0b, 0x0c];
        let b = c.seq(alphabet, len + 2);
        let ok = read(&b)?;
        c.ops(1);
        c.outcome(if ok { "a message" } else { "not a message" });
        Ok(())
    });
}
/// Every message near a good one: cut short, with a byte changed, removed, repeated, or a part left out.
fn damaged(run: &mut Run) {
    let all = run.thorough();
    explore(run, "damaged messages", move |c| {
        let kind = c.pick(KINDS);
        let old = c.flag();
        let v = if old { ProtocolVersion::V1_7 } else { ProtocolVersion::V2_1 };
        let m = G { c, left: if all && kind != 8 && kind != 1 { 1 } else { 0 } }.message(kind, old);
        let good = wmessage(&m, v);
        let how = c.pick(4);
        let (mut yes, mut no) = (0u64, 0u64);
        let mut try_ = |b: &[u8]| -> Result<(), String> {
            if read(b)? { yes += 1 } else { no += 1 }
            Ok(())
        };
        match how {
            0 => {
                for n in 0..good.len() {
                    try_(&good[..n])?;
                }
            }
            1 => {
                let mut b = good.clone();
                for i in 0..good.len() {
                    for x in 0..=255u8 {
                        if all || x < 3 || u8::count_ones(x) < 2 || u8::count_ones(x ^ good[i]) == 1 || x.abs_diff(good[i]) == 1 || x > 253 {
                            b[i] = x;
                            try_(&b)?;
                        }
                    }
                    b[i] = good[i];
                }
            }
            2 => {
                for i in 0..good.len() {
                    let mut b = good.clone();
                    b.remove(i);
                    try_(&b)?;
                    b = good.clone();
                    b.insert(i, good[i]);
                    try_(&b)?;
                }
            }
            _ => {
                for b in without(&good) {
                    try_(&b)?;
                }
                // said twice
                try_(&[&good[..], &good].concat())?;
            }
        }
        c.ops(yes + no);
        c.outcome(["cut short", "a byte changed", "a byte removed or repeated", "a part left out"][how]);
        Ok(())
    });
}
/// The fields of a message, as (tag, body) with where they start and end; nothing if it is not one.
fn parts(b: &[u8]) -> Option<Vec<(u64, usize, usize, usize)>> {
    let mut v = vec![];
    let mut at = 0;
    let varint = |at: &mut usize| -> Option<u64> {
        let mut x = 0u64;
        for i in 0..9 {
            let y = *b.get(*at)?;
            *at += 1;
            x += ((y % 128) as u64) << (7 * i);
            if y < 128 {
                return Some(x);
            }
        }
        None
    };
    while at < b.len() {
        let start = at;
        let tag = varint(&mut at)?;
        let body = match tag % 8 {
            0 => {
                varint(&mut at)?;
                at
            }
            1 => at + 8,
            5 => at + 4,
            2 => {
                let n = varint(&mut at)? as usize;
                let from = at;
                at = from.checked_add(n)?;
                v.push((tag, start, from, at));
                if at > b.len() {
                    return None;
                }
                continue;
            }
            _ => return None,
        };
        at = body;
        v.push((tag, start, at, at));
        if at > b.len() {
            return None;
        }
    }
    Some(v)
}
/// The message with each one of its parts, at any depth, left out, empty, or there twice.
fn without(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let Some(ps) = parts(b) else { return out };
    for (tag, start, from, end) in ps {
        let put = |inner: &[u8]| {
            let mut o = b[..start].to_vec();
            varint(&mut o, tag);
            varint(&mut o, inner.len() as u64);
            o.extend(inner);
            o.extend(&b[end..]);
            o
        };
        out.push([&b[..start], &b[end..]].concat());
        out.push([&b[..end], &b[start..end], &b[end..]].concat());
        if tag % 8 == 2 {
            out.push(put(&[]));
            out.push(put(&[&b[from..end], &[0][..]].concat()));
            if end > from {
                out.push(put(&b[from..end - 1]));
                out.extend(without(&b[from..end]).iter().map(|x| put(x)));
            }
        }
    }
    out
}

pub fn wire(run: &mut Run) {
    run.assume("An optional part that equals the default is absent (both are written alike).");
    there_and_back(run);
    small(run);
    damaged(run);
}
