//! Superblocks: what they attest, who signs them, and when they are final.
use crate::world::*;
use mc::{Ch, Run, System, bfs, ensure, explore, fp, same};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::VersionedHashable;
use witnet_data_structures::superblock::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_data_structures::{get_environment, set_environment};
use witnet_validations::validations::verify_signatures;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    calculate_sha256(&parts.concat()).0
}
fn bytes(h: Hash) -> [u8; 32] {
    let Hash::SHA256(h) = h;
    h
}
/// Pairs are hashed level by level; one that is left over moves up.
fn root(leaves: &[Hash]) -> Hash {
    let mut v: Vec<[u8; 32]> = leaves.iter().map(|h| bytes(*h)).collect();
    if v.is_empty() {
        return Hash::SHA256(sha(&[]));
    }
    while v.len() > 1 {
        v = v.chunks(2).map(|p| if p.len() == 2 { sha(&[&p[0], &p[1]]) } else { p[0] }).collect();
    }
    Hash::SHA256(v[0])
}
/// The hash that a bridge computes of a superblock.
fn superhash(length: u32, ars: Hash, drs: Hash, index: u32, last: Hash, before: Hash, tallies: Hash) -> Hash {
    Hash::SHA256(sha(&[&length.to_be_bytes(), &bytes(ars), &bytes(drs), &index.to_be_bytes(), &bytes(last), &bytes(before), &bytes(tallies)]))
}

/// Which of `n` identities, from the most reputed, sign: `size` of them, spread evenly.
fn chosen(n: usize, size: usize, index: u32, previous: Hash, epoch: u32) -> Vec<usize> {
    if n <= size {
        return (0..n).collect();
    }
    let each = n / size;
    let (first, jitter) = if epoch >= 376_320 {
        let h = sha(&[&bytes(previous), &index.to_be_bytes()]);
        (h.iter().fold(0, |r, b| (r * 256 + *b as usize) % n), Some(h))
    } else {
        ((bytes(previous)[0] as usize + sha(&[&index.to_be_bytes()])[0] as usize) % n, None)
    };
    (0..size).map(|i| (first + i * each + jitter.map_or(0, |h| h[i % 32] as usize % each)) % n).collect()
}

fn committees(run: &mut Run) {
    let top = run.pick(60usize, 130);
    explore(run, "who signs", move |c| {
        let n = c.pick(top + 1);
        let epoch = c.of(&[0, 376_319, 376_320, u32::MAX]);
        let previous = [hash(0, 0), hash(7, 1), hash(255, 2), hash(0x9c, 200)][c.pick(4)];
        let index = c.of(&[0u32, 1, 255, 300_000, u32::MAX]);
        let ids: Vec<PublicKeyHash> = (0..n).map(|i| PublicKeyHash::from_bytes(&sha(&[&[i as u8, 1]])[..20]).unwrap()).collect();
        for size in 0..=n + 2 {
            if size == 0 && n > 0 {
                continue; // no superblock is signed by nobody
            }
            let got = calculate_superblock_signing_committee(ARSIdentities::new(ids.clone()), size as u32, index, previous, epoch);
            ensure!(got.len() == n.min(size), "{} sign, of {n}, where {size} should", got.len());
            let want: HashSet<PublicKeyHash> = chosen(n, size, index, previous, epoch).into_iter().map(|i| ids[i]).collect();
            same!(got, want, "signers of {index}: {size} of {n} in epoch {epoch}");
            c.ops(1);
        }
        c.outcome(if n == 0 { "nobody" } else { "somebody" });
        Ok(())
    });
}

/// Votes of `votes` members suffice.
fn enough(votes: usize, members: usize) -> bool {
    votes >= members * 2 / 3
}
fn quorum(run: &mut Run) {
    explore(run, "how many votes are enough", |c| {
        let members = c.pick(400) + 1;
        for votes in 0..=members {
            same!(two_thirds_consensus(votes, members), enough(votes, members), "{votes} of {members}");
            c.ops(1);
        }
        c.outcome("committee");
        Ok(())
    });
    explore(run, "no two superblocks are final", |c| {
        let members = c.pick(200) + 1;
        for a in 1..=members / 2 {
            let both = two_thirds_consensus(a, members) && two_thirds_consensus(members - a, members);
            ensure!(!both, "two superblocks are both final in a committee of {members}, with {a} votes and {} votes", members - a);
            c.ops(1);
        }
        c.outcome("committee");
        Ok(())
    });
}

// -- votes --------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Op {
    /// Who, which superblock relative to the current one, which hash, which variant of the signature; and
    /// how far ahead the clock is.
    Vote(u8, i8, u8, u8, u8),
    /// The next superblock; these will be the active identities from then on; of that committee size.
    Build(u8, u8),
    Restart,
}
type Ballot = (u8, u32, u8, u8);
#[derive(Clone)]
struct S {
    s: SuperBlockState,
    seen: BTreeSet<Ballot>,
    /// index, and which hash
    counted: BTreeMap<u8, (u32, u8)>,
    penalized: BTreeSet<u8>,
    committee: BTreeSet<u8>,
    active: [Vec<u8>; 2],
    index: u32,
    ours: Hash,
}
struct Votes {
    /// Identities 0..n vote; which of them are active is one of these.
    sets: Vec<Vec<u8>>,
    sizes: Vec<u8>,
    voters: u8,
    hashes: u8,
    variants: u8,
    ahead: u8,
    reach: std::ops::RangeInclusive<i8>,
    epoch: u32,
    start: u32,
}
const BEFORE: u8 = 77;
impl Votes {
    /// The hash voted for: what this node has at that index, or another.
    fn target(&self, s: &S, h: u8) -> Hash {
        if h == 0 { s.ours } else { hash(0xaa, h) }
    }
    fn ballot(&self, s: &S, (who, index, h, variant): Ballot) -> SuperBlockVote {
        let mut v = SuperBlockVote::new_unsigned(self.target(s, h), index);
        v.set_bn256_signature(Bn256Signature { signature: vec![variant] });
        v.set_secp256k1_signature(KeyedSignature { signature: Signature::default(), public_key: public(who) });
        v
    }
    fn cast(&self, s: &mut S, b: Ballot) -> AddSuperBlockVote {
        let (who, index, h, _) = b;
        if s.penalized.contains(&who) || s.counted.get(&who).is_some_and(|(i, g)| *i == index && *g != h) {
            s.counted.remove(&who);
            s.penalized.insert(who);
            return AddSuperBlockVote::DoubleVote;
        }
        s.counted.entry(who).or_insert((index, h));
        if h == 0 { AddSuperBlockVote::ValidWithSameHash } else { AddSuperBlockVote::ValidButDifferentHash }
    }
}
impl System for Votes {
    type S = S;
    type A = Op;
    fn init(&self) -> Vec<S> {
        self.sets
            .iter()
            .map(|set| {
                let mut s = SuperBlockState::new(hash(3, 3), set.iter().map(|i| pkh(*i)).collect());
                let mut m = S { s: s.clone(), seen: BTreeSet::new(), counted: BTreeMap::new(), penalized: BTreeSet::new(), committee: set.iter().copied().collect(), active: [set.clone(), set.clone()], index: 0, ours: hash(3, 3) };
                if self.start > 0 {
                    // from a later superblock on
                    let sb = s.build_superblock(&[], ARSIdentities::new(set.iter().map(|i| pkh(*i)).collect()), set.len() as u32, self.start, hash(BEFORE, 0), &AltKeys::default(), None, self.epoch);
                    m.index = self.start;
                    m.ours = sb.hash();
                    m.s = s;
                }
                m
            })
            .collect()
    }
    fn actions(&self, s: &S) -> Vec<Op> {
        let mut v = vec![];
        for who in 0..self.voters {
            for d in self.reach.clone() {
                if d < 0 && s.index < (-d) as u32 {
                    continue;
                }
                for h in 0..self.hashes {
                    for variant in 0..self.variants {
                        for ahead in 0..=self.ahead {
                            v.push(Op::Vote(who, d, h, variant, ahead));
                        }
                    }
                }
            }
        }
        for set in 0..self.sets.len() {
            for size in 0..self.sizes.len() {
                v.push(Op::Build(set as u8, size as u8));
            }
        }
        v.push(Op::Restart);
        v
    }
    fn step(&self, s: &mut S, op: &Op) -> Result<(), String> {
        match *op {
            Op::Vote(who, d, h, variant, ahead) => {
                let b = (who, (s.index as i64 + d as i64) as u32, h, variant);
                let now = s.index + ahead as u32;
                let vote = self.ballot(s, b);
                same!(s.s.contains(&vote), s.seen.contains(&b), "known vote");
                let got = s.s.add_vote(&vote, now);
                let want = if !s.seen.insert(b) {
                    AddSuperBlockVote::AlreadySeen
                } else if b.1 == now {
                    if s.committee.contains(&who) { self.cast(s, b) } else { AddSuperBlockVote::NotInSigningCommittee }
                } else if b.1 == now + 1 {
                    AddSuperBlockVote::MaybeValid
                } else if s.active[0].is_empty() {
                    AddSuperBlockVote::NotInSigningCommittee
                } else {
                    AddSuperBlockVote::InvalidIndex
                };
                same!(got, want, "vote {b:?} at {now}");
            }
            Op::Build(set, size) => {
                let active = &self.sets[set as usize];
                let size = self.sizes[size as usize] as usize;
                let index = s.index + 1;
                let mut sync = s.s.clone();
                let ars = ARSIdentities::new(active.iter().map(|i| pkh(*i)).collect());
                let sb = s.s.build_superblock(&[], ars.clone(), size as u32, index, hash(BEFORE, 0), &AltKeys::default(), None, self.epoch);
                s.active = [s.active[1].clone(), active.clone()];
                s.committee = chosen(s.active[0].len(), size, index, s.ours, self.epoch).into_iter().map(|i| s.active[0][i]).collect();
                let empty = Hash::default();
                let want = superhash(s.committee.len() as u32, root(&[]), empty, index, hash(BEFORE, 0), hash(BEFORE, 0), empty);
                same!(sb.hash(), want, "superblock {index}");
                // one who only hears of it, with another idea of the committee's size, ends up in the same place
                let heard = sync.build_superblock(&[], ars, 1 + size as u32 % 3, index, hash(BEFORE, 0), &AltKeys::default(), Some(sb.clone()), self.epoch);
                same!(heard, sb, "superblock of another node");
                ensure!(observe(&sync) == observe(&s.s), "synchronized: {:?}\nbuilt: {:?}", observe(&sync), observe(&s.s));
                let old = std::mem::take(&mut s.seen);
                s.counted.clear();
                s.penalized.clear();
                s.index = index;
                let before = s.ours;
                s.ours = want;
                for b in old {
                    // what was ours before is not now
                    if b.1 == index && s.committee.contains(&b.0) {
                        let b = if b.2 == 0 { (b.0, b.1, if before == want { 0 } else { 250 }, b.3) } else { b };
                        self.cast(s, b);
                    }
                }
            }
            Op::Restart => s.s = bincode::deserialize(&bincode::serialize(&s.s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
        }
        Ok(())
    }
    fn key(&self, s: &S) -> u128 {
        fp(&(&s.seen, &s.counted, &s.penalized, &s.committee, &s.active, s.index, bytes(s.ours)))
    }
    fn check(&self, s: &S) -> Result<(), String> {
        let n = s.committee.len();
        same!(s.s.get_committee_length() as usize, n, "members");
        same!(s.s.valid_votes_counter(), s.counted.len(), "votes");
        same!(s.s.get_beacon(), CheckpointBeacon { checkpoint: s.index, hash_prev_block: s.ours }, "superblock");
        let mut names = s.s.signing_committee_pretty();
        names.sort();
        let mut want: Vec<String> = s.committee.iter().map(|i| pkh(*i).to_string()).collect();
        want.sort();
        same!(names, want, "committee");
        let mut by: BTreeMap<u8, usize> = BTreeMap::new();
        for (_, h) in s.counted.values() {
            *by.entry(*h).or_default() += 1;
        }
        for h in 0..self.hashes {
            same!(s.s.votes_counter_from_superblock(&self.target(s, h)), by.get(&h).copied().unwrap_or(0), "votes for {h}");
        }
        if !by.contains_key(&250) {
            let held: BTreeSet<(PublicKeyHash, u32, [u8; 32])> = s.s.get_current_superblock_votes().iter().map(|v| (v.secp256k1_signature.public_key.pkh(), v.superblock_index, bytes(v.superblock_hash))).collect();
            let want: BTreeSet<_> = s.counted.iter().map(|(i, (index, h))| (pkh(*i), *index, bytes(self.target(s, *h)))).collect();
            same!(held, want, "votes held");
        }
        let most = by.values().copied().max();
        same!(s.s.most_voted_superblock().map(|x| x.1), most, "most votes");
        let got = s.s.has_consensus();
        let fits = if n == 0 {
            got == SuperBlockConsensus::SameAsLocal
        } else {
            match most {
                None => got == SuperBlockConsensus::Unknown,
                Some(most) if enough(most, n) => by.iter().filter(|x| *x.1 == most).any(|(h, _)| match &got {
                    SuperBlockConsensus::SameAsLocal => *h == 0,
                    SuperBlockConsensus::Different(x) => *h == 250 || *h != 0 && *x == self.target(s, *h),
                    _ => false,
                }),
                Some(most) => got == if enough(most + n - s.counted.len() - s.penalized.len(), n) { SuperBlockConsensus::Unknown } else { SuperBlockConsensus::NoConsensus },
            }
        };
        ensure!(fits, "consensus {got:?} of {n} members with votes {by:?} and {} penalized", s.penalized.len());
        Ok(())
    }
}
fn observe(s: &SuperBlockState) -> (CheckpointBeacon, BTreeSet<String>, usize, usize) {
    (s.get_beacon(), s.signing_committee_pretty().into_iter().collect(), s.valid_votes_counter(), s.most_voted_superblock().map_or(0, |x| x.1))
}

fn voting(run: &mut Run) {
    let depth = run.pick(4, 5);
    bfs(run, "votes of a committee of three", &Votes { sets: vec![vec![0, 1, 2]], sizes: vec![3], voters: 4, hashes: 2, variants: 1, ahead: 0, reach: -1..=1, epoch: 400_000, start: 2000 }, depth, 2_000_000);
    bfs(run, "votes signed in several ways", &Votes { sets: vec![vec![0, 1]], sizes: vec![4], voters: 2, hashes: 3, variants: 2, ahead: 1, reach: 0..=1, epoch: 400_000, start: 100 }, depth, 2_000_000);
    bfs(run, "committees that change", &Votes { sets: vec![vec![0, 1, 2, 3], vec![3], vec![]], sizes: vec![2, 9], voters: 4, hashes: 2, variants: 1, ahead: 0, reach: 0..=1, epoch: 0, start: 0 }, depth, 2_000_000);
    // one index, deep: whatever the order of votes, the same outcome
    bfs(run, "all votes of a committee", &Votes { sets: vec![vec![0, 1, 2, 3, 4]], sizes: vec![9], voters: 5, hashes: 3, variants: 1, ahead: 0, reach: 0..=0, epoch: 400_000, start: 7 }, run.pick(7, 9), 2_000_000);
}

// -- contents -----------------------------------------------------------------------------------

fn request(i: u8) -> DRTransaction {
    DRTransaction::new(DRTransactionBody::new(vec![], DataRequestOutput { witnesses: i as u16, ..Default::default() }, vec![]), vec![])
}
fn tally(i: u8) -> TallyTransaction {
    TallyTransaction::new(hash(50, i), vec![i; 3], vec![], vec![], vec![])
}
/// Climbs a proof from the hash of the data up to the root.
fn climb(mut at: [u8; 32], proof: &TxInclusionProof) -> [u8; 32] {
    let mut index = proof.index;
    for h in &proof.lemma {
        at = if index & 1 == 0 { sha(&[&at, &bytes(*h)]) } else { sha(&[&bytes(*h), &at]) };
        index >>= 1;
    }
    assert_eq!(index, 0, "the index of a proof is longer than the proof");
    at
}
fn contents(run: &mut Run) {
    let (blocks_max, each) = run.pick((5, 2), (7, 3));
    explore(run, "what a superblock attests", move |c| {
        let epoch = c.of(&EPOCHS);
        let version = protocol(epoch);
        let n = c.pick(blocks_max + 1);
        let mut blocks = vec![];
        let (mut drs, mut tallies) = (0, 0);
        for i in 0..n {
            // at most one block differs from the others in size
            let (d, t) = if blocks.len() < 3 { (c.pick(each + 1), c.pick(each + 1)) } else { (i % 3, (i + 1) % 3) };
            let mut b = Block::default();
            for _ in 0..d {
                b.txns.data_request_txns.push(request(drs));
                drs += 1;
            }
            for _ in 0..t {
                b.txns.tally_txns.push(tally(tallies));
                tallies += 1;
            }
            b.block_header.beacon.checkpoint = epoch + i as u32;
            b.block_header.merkle_roots = BlockMerkleRoots::from_transactions(&b.txns, version);
            blocks.push(b);
        }
        let headers: Vec<BlockHeader> = blocks.iter().map(|b| b.block_header.clone()).collect();
        let keys: Vec<Hash> = (0..c.pick(4)).map(|i| hash(60, i as u8)).collect();
        let sb = mining_build_superblock(&headers, &keys, 9, hash(70, 1), 5, version);
        let droots: Vec<Hash> = headers.iter().map(|h| h.merkle_roots.dr_hash_merkle_root).collect();
        let troots: Vec<Hash> = headers.iter().map(|h| h.merkle_roots.tally_hash_merkle_root).collect();
        let none = n == 0;
        let last = headers.last().map_or(hash(70, 1), |h| h.versioned_hash(version));
        let or = |h: Hash| if none { Hash::default() } else { h };
        same!(sb.hash(), superhash(5, root(&keys), or(root(&droots)), 9, last, hash(70, 1), or(root(&troots))), "superblock");
        same!((sb.index, sb.last_block, sb.last_block_in_previous_superblock), (9, last, hash(70, 1)), "fields");
        for i in 0..drs + 1 {
            let tx = request(i);
            match sb.dr_proof_of_inclusion(&blocks, &tx) {
                Some(p) => {
                    ensure!(i < drs, "a request proven that is not there");
                    same!(climb(bytes(tx.body.data_poi_hash(version)), &p), bytes(sb.data_request_root), "proof of request {i}");
                }
                None => ensure!(i == drs, "no proof of request {i}"),
            }
        }
        for i in 0..tallies + 1 {
            let tx = tally(i);
            match sb.tally_proof_of_inclusion(&blocks, &tx, version) {
                Some(p) => {
                    ensure!(i < tallies, "a tally proven that is not there");
                    same!(climb(bytes(tx.data_poi_hash()), &p), bytes(sb.tally_root), "proof of tally {i}");
                }
                None => ensure!(i == tallies, "no proof of tally {i}"),
            }
        }
        c.ops(drs as u64 + tallies as u64 + 1);
        c.outcome(&format!("{n} blocks"));
        Ok(())
    });
}

/// Which identities have which keys, and what of that goes into a superblock.
fn keys(run: &mut Run) {
    let valid: Vec<Bn256PublicKey> = (1..=4u8).map(|i| Bn256PublicKey::from_secret_key(&Bn256SecretKey::from_slice(&[i; 32]).unwrap()).unwrap()).collect();
    let proofs: Vec<VrfProof> = (0..3).map(|i| vrf(|v| VrfProof::create(v, &secret(i), &VrfMessage::block_mining(CheckpointVRF::default()))).unwrap().0).collect();
    explore(run, "the keys of the active identities", |c: &mut Ch| {
        let order = c.perm(4);
        let active = order[..c.pick(5)].to_vec();
        let mut alt = AltKeys::default();
        let mut have: BTreeMap<usize, usize> = BTreeMap::new();
        // every identity announces up to two keys, in blocks it mines; bad ones are ignored
        for id in 0..3usize {
            for _ in 0..c.pick(2 + (id == 0) as usize) {
                let k = c.pick(5);
                let mut b = Block::default();
                let mut key = Bn256PublicKey::default();
                key.public_key = vec![0; 65];
                let key = Some(if k == 4 { key } else { valid[k].clone() });
                if k % 2 == 0 {
                    b.block_header.proof.proof = proofs[id].clone();
                    b.block_header.bn256_public_key = key;
                } else {
                    let claim = DataRequestEligibilityClaim { proof: proofs[id].clone() };
                    b.txns.commit_txns.push(CommitTransaction::new(CommitTransactionBody::new(hash(1, 1), hash(1, 2), claim, vec![], vec![], key), vec![]));
                }
                alt.insert_keys_from_block(&b);
                if k < 4 {
                    have.insert(id, k);
                }
            }
        }
        for id in 0..4 {
            same!(alt.get_bn256(&pkh(id as u8)), have.get(&id).map(|k| &valid[*k]), "key of {id}");
        }
        let ars = ARSIdentities::new(active.iter().map(|i| pkh(*i as u8)).collect());
        let list: Vec<Bn256PublicKey> = active.iter().filter_map(|i| have.get(i)).map(|k| valid[*k].clone()).collect();
        same!(ars.get_rep_ordered_bn256_list(&alt), list, "keys of {active:?}");
        same!((ars.len(), ars.is_empty()), (active.len(), active.is_empty()), "size");
        let mut s = SuperBlockState::new(hash(1, 1), vec![pkh(9)]);
        let sb = s.build_superblock(&[], ars, 10, 8, hash(2, 2), &alt, None, 0);
        let leaves: Vec<Hash> = list.iter().map(|k| Hash::SHA256(sha(&[&k.to_uncompressed().unwrap()]))).collect();
        same!(sb.ars_root, root(&leaves), "root of keys of {active:?}");
        same!(s.set_current_superblock(sb.clone()), None, "no superblock before");
        same!(s.get_current_superblock(), Some(sb), "superblock");
        c.outcome("keys");
        Ok(())
    });
}

/// In some periods, and on the test network, the committee is fixed.
fn fixed(run: &mut Run) {
    let was = get_environment();
    for env in [Environment::Mainnet, Environment::Testnet, Environment::Development] {
        set_environment(env);
        explore(run, &format!("fixed committees in {env}"), move |c| {
            let index = c.of(&[0u32, 1, 750, 751, 1343, 1344, 44_165, 44_166, 45_508, 45_509, 144_200, 144_201, 145_499, 145_500, 224_300, 224_301, 304_895, 304_896, 304_897, u32::MAX]);
            let epoch = c.of(&[0u32, 376_320]);
            let ids: Vec<PublicKeyHash> = (0..c.pick(4) as u8).map(pkh).collect();
            let heard = c.flag();
            let size = c.pick(3) as u32 + 1;
            let mut s = SuperBlockState::new(hash(1, 1), ids.clone());
            let forks = |at: u32| epoch >= at || env != Environment::Mainnet;
            let emergency = witnet_data_structures::chain::tapi::in_emergency_period(index, env);
            let (n, fixed): (usize, Option<Vec<PublicKeyHash>>) = if env == Environment::Testnet {
                (4, None)
            } else if env == Environment::Mainnet && index > 304_896 {
                (12, None)
            } else if let Some(v) = emergency {
                (v.len(), Some(v))
            } else {
                let at = if forks(376_320) { 376_320 } else { 0 };
                let v: Vec<PublicKeyHash> = chosen(ids.len(), size as usize, index, hash(1, 1), at).into_iter().map(|i| ids[i]).collect();
                (v.len(), Some(v))
            };
            let sb = heard.then(|| SuperBlock::new(n as u32, hash(5, 1), hash(5, 2), index, hash(5, 3), hash(5, 4), hash(5, 5)));
            let out = s.build_superblock(&[], ARSIdentities::new(vec![pkh(8)]), if heard { 2 } else { size }, index, hash(2, 2), &AltKeys::default(), sb.clone(), epoch);
            same!(out.signing_committee_length as usize, n, "size of the committee of {index}");
            if let Some(sb) = sb {
                same!(out, sb, "superblock heard of");
                // the size is that of the superblock
                if let Some(v) = &fixed {
                    if v.len() == n && n <= ids.len() && witnet_data_structures::chain::tapi::in_emergency_period(index, env).is_none() {
                        return Ok(());
                    }
                }
            }
            let got: BTreeSet<String> = s.signing_committee_pretty().into_iter().collect();
            same!(got.len(), n, "committee of {index}");
            match fixed {
                Some(v) => same!(got, v.iter().map(|p| p.to_string()).collect(), "committee of {index}"),
                None => {
                    // neither who is active nor who was matters
                    let mut other = SuperBlockState::new(hash(1, 1), vec![pkh(20), pkh(21)]);
                    other.build_superblock(&[], ARSIdentities::new(vec![]), 1, if env == Environment::Testnet { 5 } else { 304_897 }, hash(2, 2), &AltKeys::default(), None, epoch);
                    same!(other.signing_committee_pretty().into_iter().collect::<BTreeSet<_>>(), got, "the fixed committee");
                }
            }
            c.outcome(&format!("{n} members"));
            Ok(())
        });
    }
    set_environment(was);
}

/// Only what the voter signed over this very vote passes.
fn signatures(run: &mut Run) {
    explore(run, "signatures of votes", |c| {
        let who = c.pick(2) as u8;
        let mut v = SuperBlockVote::new_unsigned(hash(1, 1), 7);
        v.set_bn256_signature(Bn256Signature { signature: c.of(&[vec![], vec![1], vec![1, 2, 3]]) });
        let right = sha(&[&7u32.to_be_bytes(), &bytes(hash(1, 1)), &v.bn256_signature.signature]);
        same!(v.bn256_signature_message(), [&7u32.to_be_bytes()[..], &bytes(hash(1, 1))].concat(), "message");
        v.set_secp256k1_signature(signed(who, Hash::SHA256(right)));
        let pristine = v.clone();
        match c.pick(12) {
            0 => {}
            1 => v.superblock_index = 8,
            2 => v.superblock_hash = hash(1, 2),
            3 => v.bn256_signature.signature.push(0),
            4 => v.secp256k1_signature.public_key = public(1 - who),
            5 => v.secp256k1_signature.public_key = PublicKey { compressed: 2, bytes: [0xff; 32] },
            6 => v.secp256k1_signature.public_key = PublicKey { compressed: 9, bytes: [1; 32] },
            7 => v.secp256k1_signature.public_key = PublicKey::default(),
            8 => v.secp256k1_signature.signature = Signature::default(),
            9 => v.secp256k1_signature.signature = Signature::Secp256k1(Secp256k1Signature { der: vec![0x30; 70] }),
            10 => v.secp256k1_signature = signed(who, hash(9, 9)),
            _ => {
                let Signature::Secp256k1(s) = &mut v.secp256k1_signature.signature;
                let at = c.pick(s.der.len());
                s.der[at] ^= 1 << c.pick(8);
            }
        }
        let good = v == pristine;
        let got = verify_signatures(vec![SignaturesToVerify::SuperBlockVote { superblock_vote: v.clone() }], &mut witnet_data_structures::vrf::VrfCtx::secp256k1().unwrap());
        ensure!(got.is_ok() == good, "vote {v:?}: {got:?}");
        c.outcome(if good { "signed" } else { "not signed" });
        Ok(())
    });
}

pub fn superblocks(run: &mut Run) {
    setup();
    run.assume("A superblock's committee has a member, unless nobody was active.");
    quorum(run);
    committees(run);
    voting(run);
    contents(run);
    keys(run);
    fixed(run);
    signatures(run);
}
