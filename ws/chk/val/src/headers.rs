//! Headers: who may mine which block, which candidate wins, and how much there is to win.
use crate::blocks::*;
use crate::world::*;
use mc::{Ch, Run, ensure, explore, same};
use std::cmp::Ordering;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_data_structures::wit::Wit;
use witnet_validations::eligibility::current::{Eligibility, Eligible};
use witnet_validations::eligibility::legacy::{VrfSlots, calculate_randpoe_threshold, calculate_reppoe_threshold};
use witnet_validations::validations::*;

/// floor((2^64 - 1) / parts) · times, at most 2^64 - 1; the first 32 bits of it.
fn share(parts: u64, times: u64) -> u32 {
    (((u64::MAX / parts) as u128 * times as u128).min(u64::MAX as u128) >> 32) as u32
}
/// The target of every miner before 2.0.
fn target(identities: u32, factor: u32, epoch: u32, min: u32, until: u32, floor: bool) -> u32 {
    if epoch <= until {
        share(min.max(1) as u64, 1)
    } else {
        share(identities.max(1).max(if floor { min } else { 1 }) as u64, factor as u64)
    }
}
/// A hash within the target: its first 32 bits are not above it.
fn first(h: Hash) -> u32 {
    let Hash::SHA256(h) = h;
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}

/// Entries: validator, withdrawer, coins, since when.
type Entries = Vec<(u8, u8, u64, u32)>;
fn tracker(v: &Entries) -> StakesTracker {
    let mut s = StakesTracker::default();
    for (v, w, coins, since) in v {
        s.add_stake(stake_key(*v, *w), Wit::from_nanowits(coins * WIT), *since, true, Wit::from_nanowits(MIN_STAKE)).unwrap();
    }
    s
}
/// Whether a validator is among the first `rf` in power, of at most two thirds of all.
fn may_mine(v: &Entries, key: u8, epoch: u32, rf: u64) -> bool {
    let rank = |x: &(u8, u8, u64, u32)| (x.2 * epoch.saturating_sub(x.3) as u64, pkh(x.0), pkh(x.1));
    v.iter().filter(|x| x.0 == key).any(|x| (v.iter().filter(|y| rank(y) > rank(x)).count() as u64) < rf.min(v.len() as u64 * 2 / 3))
}
/// The more epochs without a block, the more validators may mine.
fn factor(epoch: u32, before: u32) -> u64 {
    if epoch < V20 || epoch < before {
        return 0;
    }
    (4u128 << (epoch - before).min(40)).min(u16::MAX as u128) as u64
}

/// Up to `max` of these, in their order.
fn few<T: Clone>(c: &mut Ch, xs: &[T], max: usize) -> Vec<T> {
    let mut v = vec![];
    let mut from = 0;
    while v.len() < max && from < xs.len() {
        let i = from + c.pick(xs.len() - from + 1);
        if i == xs.len() {
            break;
        }
        v.push(xs[i].clone());
        from = i + 1;
    }
    v
}

const TIP: u8 = 0x71;
fn stakers(now: u32) -> Entries {
    vec![(5, 1, 20_000, now - 10), (11, 11, 20_000, now - 9), (12, 12, 10_001, now - 1), (13, 13, 20_000, now), (14, 14, 10_001, now - 5), (15, 2, 10_001, now - 5), (16, 16, 10_000_000, now - 10), (17, 17, 10_000, now - 2), (18, 18, 10_000, now - 3)]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    /// after the current epoch
    Future,
    /// before the last block
    Past,
    /// after another block
    Parent,
    /// proof of another epoch's input
    Input,
    /// proof of another block's input
    Randomness,
    /// a byte of the proof
    Proof,
    /// the proof is somebody else's
    Prover,
    /// the proof is attributed to another key
    Claimed,
    /// signed by another key
    Signer,
    /// signature attributed to another key
    Signed,
    /// signature of another block
    Other,
    /// signature byte
    Flip,
    /// changed after signing: what the header commits to
    Root,
    Signals,
    Bn256,
}
use Bad::*;
const BAD: [Bad; 15] = [Future, Past, Parent, Input, Randomness, Proof, Prover, Claimed, Signer, Signed, Other, Flip, Root, Signals, Bn256];

fn who(run: &mut Run) {
    let inputs_n = run.pick(3, 12);
    explore(run, "who may mine", move |c| {
        let now = c.of(&[500u32, 1500, 1999, 2000, 2500, 3000, 3500]);
        let miner = c.of(&[5u8, 11, 12, 13, 14, 15, 16, 17, 18, 19]);
        let gap = c.of(&[1u32, 2, 3, 17]);
        let fresh = c.pick(inputs_n) as u8;
        let active = if version(now) < 2 { c.of(&[0u32, 10, 100]) } else { 0 };
        let wip = version(now) >= 2 || c.flag();
        let bad = few(c, &BAD, if gap == 1 { 2 } else { 1 });
        let mut cc = constants();
        cc.mining_backup_factor = 4;
        cc.minimum_difficulty = 12;
        let names: &[&str] = if wip { &WIPS } else { &[] };
        let vrf_input = CheckpointVRF { checkpoint: now, hash_prev_vrf: hash(0x70, fresh) };
        let mut rep = ReputationEngine::new(10);
        if active > 0 {
            rep.ars_mut().push_activity((0..active).map(|i| PublicKeyHash::from_hex(&format!("{i:040x}")).unwrap()));
        }
        let entries = stakers(now);
        let s = tracker(&entries);

        // the block
        let claimed = if bad.contains(&Claimed) { 20 } else { miner };
        let prover = if bad.contains(&Prover) { 21 } else { miner };
        let mut proved = vrf_input;
        if bad.contains(&Input) {
            proved.checkpoint -= 1;
        }
        if bad.contains(&Randomness) {
            proved.hash_prev_vrf = hash(0x6f, fresh);
        }
        let (mut proof, h) = vrf(|v| VrfProof::create(v, &secret(prover), &VrfMessage::block_mining(proved))).unwrap();
        if bad.contains(&Proof) || claimed != miner {
            proof = forged(&proof, bad.contains(&Proof), if bad.contains(&Prover) { prover } else { claimed });
        }
        let beacon = CheckpointBeacon { checkpoint: now, hash_prev_block: hash(if bad.contains(&Parent) { 0x72 } else { TIP }, 0) };
        let txns = BlockTransactions { mint: crate::blocks::mint(now, 0), ..Default::default() };
        let mut header = BlockHeader { signals: 0, beacon, merkle_roots: roots(&txns, now), proof: BlockEligibilityClaim { proof }, bn256_public_key: None };
        let signer = if bad.contains(&Signer) { 22 } else { miner };
        let signed_by = if bad.contains(&Signed) { 23 } else { signer };
        let mut over = Block::new(header.clone(), KeyedSignature::default(), txns.clone()).versioned_hash(protocol(now));
        if bad.contains(&Other) {
            over = hash(1, 2);
        }
        let mut sig = signed(signer, over);
        sig.public_key = public(signed_by);
        if bad.contains(&Flip) {
            let Signature::Secp256k1(x) = &mut sig.signature;
            let n = x.der.len();
            x.der[n - 1] ^= 1;
        }
        if bad.contains(&Root) {
            header.merkle_roots.dr_hash_merkle_root = hash(3, 3);
        }
        if bad.contains(&Signals) {
            header.signals ^= 1;
        }
        if bad.contains(&Bn256) {
            header.bn256_public_key = Some(serde_json::from_value(serde_json::json!({"public_key": vec![7u8; 33]})).unwrap());
        }
        let block = Block::new(header, sig, txns);
        let tip = if bad.contains(&Past) { now + 1 } else { now - gap };
        let current = if bad.contains(&Future) { now - 1 } else { now + if bad.contains(&Past) { 1 } else { 0 } };

        let rf = factor(now, tip);
        let eligible = if version(now) >= 2 { may_mine(&entries, miner, now, rf) } else { first(h) <= target(active, 4, now, 12, 0, wip) };
        let want = bad.is_empty() && eligible;
        c.op(|| format!("epoch {now} after {tip}, miner {miner}, randomness {fresh}, {active} identities, defects {bad:?}"));
        same!(wit2().get_replication_factor(now, tip) as u64, rf, "replication factor of epoch {now} after {tip}");
        let mut sigs = vec![];
        let got = validate_block(
            &block,
            current,
            vrf_input,
            CheckpointBeacon { checkpoint: tip, hash_prev_block: hash(TIP, 0) },
            &mut sigs,
            &rep,
            &cc,
            &wips(now, names),
            &s,
            protocol(now),
            rf as u16,
        )
        .map_err(|e| e.to_string())
        .and_then(|_| vrf(|v| verify_signatures(sigs, v)).map_err(|e| e.to_string()));
        c.outcome(if want { "mined" } else if eligible { "bad block" } else { "not eligible" });
        ensure!(got.is_ok() == want, "a block of epoch {now} by {miner} after epoch {tip}, defects {bad:?}, {} be accepted (eligible: {eligible}): {got:?}", if want { "should" } else { "should not" });
        if let Ok(hashes) = got {
            same!(hashes, vec![h], "hash of the eligibility proof");
        }
        Ok(())
    });
}

/// The same proof with a bit of it flipped, or of another key.
fn forged(p: &VrfProof, flip: bool, key: u8) -> VrfProof {
    let mut v = serde_json::to_value(p).unwrap();
    if flip {
        v["proof"][40] = (v["proof"][40].as_u64().unwrap() ^ 1).into();
    }
    v["public_key"] = serde_json::to_value(public(key)).unwrap();
    serde_json::from_value(v).unwrap()
}

/// The first block is the one agreed on, bit by bit.
fn genesis(run: &mut Run) {
    explore(run, "the first block", |c| {
        let n = c.pick(3);
        let vtts: Vec<_> = (0..n).map(|i| VTTransaction::new(VTTransactionBody::new(vec![], vec![vto(i as u8 + 1, 10, 0)]), vec![])).collect();
        let mut cc = constants();
        let right = Block::genesis(cc.bootstrap_hash, vtts.clone());
        cc.genesis_hash = right.hash();
        let defect = c.pick(15);
        let mut h = right.block_header.clone();
        let mut t = right.txns.clone();
        let mut sig = right.block_sig.clone();
        let mut rehash = false;
        match defect {
            0 => {}
            1 => h.signals += 1,
            2 => h.beacon.checkpoint = 1,
            3 => h.beacon.hash_prev_block = hash(1, 1),
            4 => h.merkle_roots.mint_hash = hash(1, 1),
            5 => h.merkle_roots.vt_hash_merkle_root = hash(1, 1),
            6 => h.merkle_roots.stake_hash_merkle_root = hash(1, 1),
            7 => h.proof = BlockEligibilityClaim { proof: vrf(|v| VrfProof::create(v, &secret(1), &VrfMessage::block_mining(CheckpointVRF::default()))).unwrap().0 },
            8 => h.bn256_public_key = Some(serde_json::from_value(serde_json::json!({"public_key": vec![7u8; 33]})).unwrap()),
            9 => sig = signed(1, right.hash()),
            10 => sig.public_key = public(1),
            11 => t.value_transfer_txns.push(VTTransaction::new(VTTransactionBody::new(vec![], vec![vto(9, 10, 0)]), vec![])),
            12 => {
                if t.value_transfer_txns.pop().is_none() {
                    return Ok(());
                }
            }
            13 => t.mint = MintTransaction::new(0, vec![vto(1, 1, 0)]),
            _ => {
                // another one altogether
                t.mint = MintTransaction::new(7, vec![]);
                h.merkle_roots.mint_hash = t.mint.hash();
                rehash = c.flag();
            }
        }
        let b = Block::new(h, sig, t);
        if rehash {
            cc.genesis_hash = b.hash();
        }
        c.op(|| format!("first block with {n} transactions and defect {defect}"));
        let direct = validate_genesis_block(&b, cc.genesis_hash);
        let want = defect == 0;
        ensure!(direct.is_ok() == want, "first block with defect {defect}: {direct:?}");
        let mut sigs = vec![];
        let beacon = CheckpointBeacon { checkpoint: 0, hash_prev_block: cc.bootstrap_hash };
        let r = validate_block(&b, 1, CheckpointVRF::default(), beacon, &mut sigs, &ReputationEngine::new(1), &cc, &wips(0, &[]), &StakesTracker::default(), ProtocolVersion::V1_7, 0);
        ensure!(r.is_ok() == want && sigs.is_empty(), "first block with defect {defect} after nothing: {r:?}, {} signatures", sigs.len());
        c.outcome(if want { "the first block" } else { "another" });
        Ok(())
    });
}

fn ranks(run: &mut Run) {
    let max = run.pick(4, 5);
    explore(run, "the strongest mine", move |c| {
        let now = 2500u32;
        let kinds: Entries = vec![(1, 1, 10_000, now - 1), (1, 2, 10_000, now - 2), (2, 2, 20_000, now - 1), (2, 1, 10_000, now), (3, 3, 10_000, now + 1), (3, 4, 40_000, now - 1), (4, 4, 10_000, now - 4)];
        let entries = few(c, &kinds, max);
        let rf = c.of(&[0u16, 1, 2, 3, 4, 8, u16::MAX]);
        let s = tracker(&entries);
        for key in 1..=5u8 {
            c.op(|| format!("validator {key} of {entries:?} with factor {rf}"));
            let want = may_mine(&entries, key, now, rf as u64);
            let got = s.mining_eligibility(pkh(key), now, rf);
            ensure!(matches!(got, Ok(Eligible::Yes)) == want && got.is_ok(), "{key} may mine with {entries:?} and factor {rf}: {got:?}, not {want}");
            same!(s.mining_eligibility_bool(pkh(key), now, rf), want, "{key} may mine with {entries:?} and factor {rf}");
            c.outcome(if want { "may" } else { "may not" });
        }
        Ok(())
    });
    explore(run, "more may mine the longer there is no block", |c| {
        let epoch = c.of(&[0u32, 1, V20 - 1, V20, V20 + 1, V21 - 1, V21, V21 + 1, u32::MAX - 1, u32::MAX]);
        for d in [0u32, 1, 2, 3, 12, 13, 14, 15, 16, 31, 32, 33, 63, 64, 65, 1000, u32::MAX] {
            c.op(|| format!("epoch {epoch} ± {d}"));
            for before in [epoch.wrapping_sub(d), epoch.saturating_add(d)] {
                same!(wit2().get_replication_factor(epoch, before) as u64, factor(epoch, before), "replication factor of {epoch} after {before}");
            }
        }
        c.outcome("factor");
        Ok(())
    });
}

const COUNTS: [u32; 14] = [0, 1, 2, 3, 7, 99, 100, 1999, 2000, 2001, 65_536, 1 << 31, u32::MAX - 1, u32::MAX];
fn thresholds(run: &mut Run) {
    explore(run, "thresholds of miners", |c| {
        let identities = c.of(&COUNTS);
        let min = c.of(&COUNTS);
        let epoch = c.of(&[0u32, 1, 99, 100, 101, u32::MAX]);
        let until = c.of(&[0u32, 100, u32::MAX]);
        let wip = c.flag();
        let names: &[&str] = if wip { &["WIP0009-0011-0012"] } else { &[] };
        let mut last = 0;
        for rf in COUNTS {
            c.ops(1);
            let (h, p) = calculate_randpoe_threshold(identities, rf, epoch, min, until, &wips(epoch, names));
            let want = target(identities, rf, epoch, min, until, wip);
            let what = format!("{identities} identities, factor {rf}, minimum {min} until {until}, epoch {epoch}, wip {wip}");
            same!(h, Hash::with_first_u32(want), "target for {what}");
            same!(p, want as f64 / u32::MAX as f64, "probability for {what}");
            ensure!(want >= last, "a greater factor makes less eligible: {what}");
            last = want;
        }
        c.outcome("target");
        // slots
        if identities < 3000 && min < 3000 {
            for (rf, bf) in [(1u32, 1u32), (1, 3), (3, 8), (4, 3)] {
                let s = VrfSlots::from_rf(identities, rf, bf, epoch, min, until, &wips(epoch, names));
                let targets: Vec<u32> = (rf..=bf).map(|f| target(identities, f, epoch, min, until, wip)).collect();
                same!(s.target_hashes().to_vec(), targets.iter().map(|t| Hash::with_first_u32(*t)).collect::<Vec<_>>(), "targets of slots");
                let mut near = vec![0, u32::MAX];
                near.extend(targets.iter().flat_map(|t| [*t, t.saturating_sub(1), t.saturating_add(1)]));
                for x in near {
                    for h in [Hash::with_first_u32(x), hash_of(x, 0), hash_of(x, 0xfe)] {
                        c.ops(1);
                        same!(s.slot(&h) as usize, targets.iter().filter(|t| first(h) > **t).count(), "slot of {h} in {targets:?}");
                    }
                }
            }
        }
        Ok(())
    });
    explore(run, "thresholds of witnesses", |c| {
        // reputation of the active identities
        let reps = c.seq(&[0u32, 1, 5, 40, 1_000_000], 3);
        let min = c.of(&[1u32, 2, 7, 2000, u32::MAX]);
        let rule = c.pick(3);
        let names: [&[&str]; 3] = [&[], &["THIRD_HARD_FORK"], &["THIRD_HARD_FORK", "WIP0014-0016"]];
        let mut rep = ReputationEngine::new(10);
        for (i, r) in reps.iter().enumerate() {
            rep.ars_mut().push_activity(vec![pkh(i as u8)]);
            if *r > 0 {
                rep.trs_mut().gain(Alpha(10), vec![(pkh(i as u8), Reputation(*r))]).unwrap();
            }
        }
        rep.invalidate_reputation_threshold_cache();
        let total = rep.total_active_reputation();
        let mut own: Vec<(u64, u64)> = vec![];
        for (i, r) in reps.iter().map(|r| *r as u64).chain([0]).enumerate() {
            let key = pkh(i as u8);
            let eligible = rep.get_eligibility(&key) as u64 + 1;
            own.push((r, eligible));
            let mut last = 0;
            for witnesses in [1u16, 2, 3, 10, 1000, u16::MAX] {
                c.ops(1);
                let (h, _) = calculate_reppoe_threshold(&rep, &key, witnesses, min, &wips(100, names[rule]));
                let factor = rep.threshold_factor(witnesses) as u128;
                let max = u64::MAX as u128;
                let part = |d: u64| u64::MAX as u128 / d.max(1) as u128;
                let want = match rule {
                    2 => (part(total.max(min as u64)) * eligible as u128).min(max) * witnesses as u128,
                    1 => (part(total) * eligible as u128).min(part(min as u64)) * factor,
                    _ => (part(total) * eligible as u128).min(max) * factor,
                };
                let want = (want.min(max) >> 32) as u32;
                same!(h, Hash::with_first_u32(want), "target of reputation {r} of {reps:?}, {witnesses} witnesses, minimum {min}, rule {rule}");
                ensure!(want >= last, "more witnesses make less eligible: {reps:?}, {witnesses} witnesses");
                last = want;
            }
        }
        // more reputation, not less eligible
        for (i, a) in own.iter().enumerate() {
            for b in own[..i].iter() {
                ensure!((a.0 > b.0 && a.1 >= b.1) || (a.0 < b.0 && a.1 <= b.1) || a.0 == b.0, "eligibility of {a:?} and {b:?} in {reps:?}");
            }
        }
        c.outcome("witness");
        Ok(())
    });
}
fn hash_of(first: u32, rest: u8) -> Hash {
    let mut h = [rest; 32];
    h[..4].copy_from_slice(&first.to_be_bytes());
    Hash::SHA256(h)
}

type Candidate = (Hash, u32, Hash, bool, u64);
/// How good a candidate is, the greater the better.
fn merit(b: &Candidate, slots: &[u32], v: u8) -> (i64, bool, bool, std::cmp::Reverse<Hash>, std::cmp::Reverse<Hash>) {
    use std::cmp::Reverse;
    if v >= 2 {
        (b.4 as i64, false, false, Reverse(b.2), Reverse(b.0))
    } else {
        (-(slots.iter().filter(|t| first(b.2) > **t).count() as i64), b.1 > 0, b.3, Reverse(b.2), Reverse(b.0))
    }
}
fn better(a: &Candidate, b: &Candidate, s: &VrfSlots, p: ProtocolVersion) -> Ordering {
    compare_block_candidates(a.0, Reputation(a.1), a.2, a.3, Power::from(a.4), b.0, Reputation(b.1), b.2, b.3, Power::from(b.4), s, p)
}
fn candidates(run: &mut Run) {
    let deep = run.thorough();
    explore(run, "the best candidate", move |c| {
        let v = c.pick(4) as u8;
        let p = protocol(EPOCHS[v as usize]);
        let slots = [10u32, 20];
        let s = VrfSlots::new(slots.iter().map(|t| Hash::with_first_u32(*t)).collect());
        let mut all: Vec<Candidate> = vec![];
        for id in [hash(1, 1), hash(1, 2)] {
            for h in [hash_of(5, 0), hash_of(10, 0xff), hash_of(11, 0), hash_of(21, 0)] {
                if v >= 2 {
                    all.extend([0u64, 1, 1 << 40].map(|w| (id, 0, h, false, w)));
                } else {
                    for r in [0u32, 1, 9] {
                        all.extend([false, true].map(|x| (id, r, h, x, 0)));
                    }
                }
            }
        }
        let n = all.len();
        let a = all[c.pick(n)];
        for b in &all {
            c.ops(1);
            let got = better(&a, b, &s, p);
            same!(got, merit(&a, &slots, v).cmp(&merit(b, &slots, v)), "{a:?} against {b:?} in version {v}");
            same!(better(b, &a, &s, p), got.reverse(), "{b:?} against {a:?} in version {v}");
            c.outcome(match got { Ordering::Less => "worse", Ordering::Equal => "same", Ordering::Greater => "better" });
            // whatever order they arrive in, the same one wins
            for d in all.iter().step_by(if deep { 1 } else { 3 }) {
                let win = |o: [&Candidate; 3]| {
                    let mut best = o[0];
                    for x in &o[1..] {
                        if better(x, best, &s, p) == Ordering::Greater {
                            best = x;
                        }
                    }
                    merit(best, &slots, v)
                };
                let w = win([&a, b, d]);
                for o in [[&a, d, b], [b, &a, d], [b, d, &a], [d, &a, b], [d, b, &a]] {
                    same!(win(o), w, "winner of {a:?}, {b:?}, {d:?} in version {v}");
                }
            }
        }
        Ok(())
    });
}

fn rewards(run: &mut Run) {
    let top = run.pick(20u64, 70);
    explore(run, "what there is to win", move |c| {
        let initial = c.pick(top as usize) as u64;
        let initial = if initial + 1 == top { 250 * WIT } else { initial };
        let halving = c.of(&[1u32, 2, 3, 7, 1000]);
        let mut sum = 0u128;
        let mut last = initial;
        for e in 0..70 * halving {
            let r = block_reward(e, initial, halving);
            let want = initial.checked_shr(e / halving).unwrap_or(0);
            same!(r, want, "reward of epoch {e}, of {initial} at first, halved every {halving}");
            ensure!(r <= last, "the reward grows");
            last = r;
            sum += r as u128;
            c.ops(1);
        }
        same!(block_reward(u32::MAX, initial, halving), 0, "reward in the end");
        same!(total_block_reward(initial, halving) as u128, sum, "sum of all rewards of {initial} halved every {halving}");
        c.outcome("rewards");
        Ok(())
    });
}

pub fn headers(run: &mut Run) {
    setup();
    who(run);
    genesis(run);
    ranks(run);
    thresholds(run);
    candidates(run);
    rewards(run);
}
