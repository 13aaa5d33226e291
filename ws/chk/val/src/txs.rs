//! Transactions on their own: what may be spent, by whom, and that no value appears.
use crate::blocks::authorization;
use crate::world::*;
use mc::{Ch, Run, ensure, explore, same};
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::proto::versioning::VersionedHashable;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::{UnspentOutputsPool, UtxoDiff};
use witnet_data_structures::wit::Wit;
use witnet_validations::validations::*;

pub const VT_WEIGHT: u32 = 20_000;
pub const DR_WEIGHT: u32 = 80_000;
pub const COLLATERAL: u64 = 1000;

/// Outputs of key 1 (spendable, spendable from this epoch on, locked, too large to add), and of key 2.
pub fn coins(epoch: u32) -> Ledger {
    let now = time(epoch) as u64;
    [(0, vto(1, 100, 0)), (1, vto(1, 50, now)), (2, vto(1, 40, now + 1)), (3, vto(2, 70, 1)), (4, vto(1, u64::MAX - 10, 0)), (5, vto(1, 30, u64::MAX))].into_iter().map(|(i, o)| (ptr(i, 0), (o, i as u32))).collect()
}
/// Every way to sign for `owners`: the signatures and whether they are right.
pub fn sign_for(c: &mut Ch, owners: &[u8], hash: Hash) -> (Vec<KeyedSignature>, bool) {
    let mut s: Vec<KeyedSignature> = owners.iter().map(|o| signed(*o, hash)).collect();
    if s.is_empty() {
        // unasked signature
        return if c.flag() { (vec![signed(1, hash)], false) } else { (s, true) };
    }
    let i = c.pick(s.len());
    let m = if i == 0 { c.pick(8) } else { 1 + c.pick(4) };
    match m {
        0 => return (s, true),
        1 => s[i] = signed(if owners[i] == 1 { 2 } else { 1 }, hash),
        2 => s[i] = signed(owners[i], Hash::SHA256([7; 32])),
        3 => s[i].public_key = public(3),
        4 => s[i].signature = Signature::default(),
        5 => {
            s.pop();
        }
        6 => s.push(signed(owners[0], hash)),
        _ => {
            // the same signatures for other inputs: right only when all inputs have one owner
            s.rotate_left(1);
            return (s, owners.iter().all(|o| *o == owners[0]));
        }
    }
    (s, false)
}
pub fn owner(i: usize) -> u8 {
    if i == 3 { 2 } else { 1 }
}
pub struct Env {
    pub utxo: UnspentOutputsPool,
    pub stakes: StakesTracker,
    pub epoch: u32,
    pub vt: u32,
    pub dr: u32,
}
impl Env {
    pub fn new(l: &Ledger, epoch: u32) -> Self {
        Env { utxo: pool(l), stakes: StakesTracker::default(), epoch, vt: VT_WEIGHT, dr: DR_WEIGHT }
    }
    /// As a transaction that arrives from the network.
    pub fn validate(&self, tx: &Transaction, names: &[&str]) -> Result<u64, String> {
        let mut sigs = vec![];
        let fee = validate_new_transaction(
            tx,
            (&ReputationEngine::new(1), &self.utxo, &DataRequestPool::default()),
            CheckpointVRF::default(),
            self.epoch,
            epochs(),
            10,
            &mut sigs,
            COLLATERAL,
            1,
            self.vt,
            self.dr,
            1,
            125,
            &wips(self.epoch, names),
            10,
            &self.stakes,
            protocol(self.epoch),
            4,
            &wit2(),
        )
        .map_err(|e| e.to_string())?;
        vrf(|v| verify_signatures(sigs, v)).map_err(|e| e.to_string())?;
        Ok(fee)
    }
}
pub fn judge(c: &mut Ch, kind: &str, got: Result<u64, String>, want: Option<u64>, what: &str) -> Result<(), String> {
    c.ops(1);
    c.state(what);
    c.outcome(&format!("{kind}: {}", if want.is_some() { "accepted" } else { "refused" }));
    match (&got, want) {
        (Ok(f), Some(w)) => same!(*f, w, "fee of {what}"),
        (Err(e), Some(_)) => return Err(format!("{kind} refused ({e}): {what}")),
        (Ok(f), None) => return Err(format!("{kind} accepted with fee {f}: {what}")),
        _ => {}
    }
    Ok(())
}
/// Up to `n` of the outputs (or one that does not exist), in any order and perhaps twice.
fn choose(c: &mut Ch, n: usize) -> Vec<usize> {
    let k = c.pick(n + 1);
    (0..k).map(|_| c.pick(7)).collect()
}

fn transfers(run: &mut Run) {
    let n = run.pick(2, 3);
    explore(run, "value transfers", move |c| {
        let epoch = c.of(&[500, 2500]);
        let l = coins(epoch);
        let mut e = Env::new(&l, epoch);
        let ins = choose(c, n);
        let ptrs: Vec<_> = ins.iter().map(|i| ptr(*i as u8, 0)).collect();
        let outs: Vec<u64> = c.seq(&[0, 1, 50, 100, 150, 170, u64::MAX - 10, u64::MAX], 2);
        let locks = c.flag();
        let body = VTTransactionBody::new(inputs(&ptrs), outs.iter().enumerate().map(|(i, v)| vto(i as u8, *v, if locks { u64::MAX - i as u64 } else { 0 })).collect());
        let weight = body.weight();
        let mut tx = VTTransaction::new(body, vec![]);
        let owners: Vec<u8> = ins.iter().map(|i| owner(*i)).collect();
        let h = tx.versioned_hash(protocol(epoch));
        let (sigs, signed) = sign_for(c, &owners, h);
        tx.signatures = sigs;
        let mut light = true;
        if signed && !locks {
            e.vt = weight.saturating_sub(c.pick(2) as u32);
            light = e.vt == weight;
        }
        let want = spend(&l, &ptrs, epoch).filter(|_| !ins.is_empty() && signed && light && !outs.contains(&0)).and_then(|v| fee(v, &outs));
        let what = format!("{ins:?} -> {outs:?} signed {signed} light {light} epoch {epoch}");
        c.op(|| what.clone());
        if want.is_some() {
            let d = UtxoDiff::new(&e.utxo, 10);
            let (i, o, f) = validate_vt_transaction(&tx, &d, epoch, epochs(), &mut vec![], e.vt, Some(protocol(epoch))).map_err(|e| e.to_string())?;
            same!(Some(f), want, "fee");
            same!(i.len(), tx.body.inputs.len(), "inputs");
            ensure!(i.iter().zip(&tx.body.inputs).all(|(a, b)| *a == b) && o.iter().zip(&tx.body.outputs).all(|(a, b)| *a == b) && o.len() == outs.len(), "other inputs or outputs than the transaction's");
        }
        let got = e.validate(&Transaction::ValueTransfer(tx), &WIPS);
        judge(c, "value transfer", got, want, &what)
    });
}

/// A request for one source, which validates before and after all improvements.
pub fn rad(kind: RADType) -> RADRequest {
    let url = if kind == RADType::HttpGet { "http://a".into() } else { String::new() };
    let retrieve = vec![RADRetrieve { kind, url, script: vec![0x80], body: vec![], headers: vec![] }];
    RADRequest { time_lock: 0, retrieve, aggregate: RADAggregate { filters: vec![], reducer: 3 }, tally: RADTally { filters: vec![], reducer: 3 } }
}
pub fn request(witnesses: u16, witness_reward: u64, fee: u64, min: u32, collateral: u64) -> DataRequestOutput {
    DataRequestOutput { data_request: rad(RADType::HttpGet), witness_reward, witnesses, commit_and_reveal_fee: fee, min_consensus_percentage: min, collateral }
}

fn requests(run: &mut Run) {
    let deep = run.thorough();
    explore(run, "data requests: the request", move |c| {
        let epoch = c.of(&[500, 2500]);
        let l: Ledger = [(ptr(0, 0), (vto(1, 1000, 0), 0)), (ptr(3, 0), (vto(2, 70, 0), 0)), (ptr(4, 0), (vto(1, u64::MAX - 2000, 0), 0))].into();
        let mut e = Env::new(&l, epoch);
        let w22 = c.flag();
        let witnesses = c.of(&[0, 1, 3, u16::MAX]);
        let reward = c.of(&[0, 1, 7, 8, 9, 100, u64::MAX / 3, u64::MAX]);
        let fee_ = c.of(&[0, 10, 1u64 << 62, 1u64 << 63]);
        let min = c.of(if deep { &[0, 1, 50, 51, 70, 99, 100, 101, u32::MAX] } else { &[0, 50, 51, 99, 100] });
        let collateral = c.of(&[0, 1, COLLATERAL - 1, COLLATERAL, COLLATERAL + 1, 1125, 12500, 12501, u64::MAX]);
        let dr = request(witnesses, reward, fee_, min, collateral);
        let ins: Vec<u8> = c.of(&[vec![0], vec![4], vec![0, 3]]);
        let ptrs: Vec<_> = ins.iter().map(|i| ptr(*i, 0)).collect();
        let mut tx = DRTransaction::new(DRTransactionBody::new(inputs(&ptrs), dr.clone(), vec![]), vec![]);
        let h = tx.versioned_hash(protocol(epoch));
        tx.signatures = ins.iter().map(|i| signed(owner(*i as usize), h)).collect();
        let light = c.flag();
        e.dr = tx.weight() - !light as u32;
        // what the request costs
        let cost = witnesses as u128 * (reward as u128 + 2 * fee_ as u128);
        let ratio = |r: u64| {
            let k = if collateral == 0 { COLLATERAL } else { collateral };
            k as u128 <= 125 * r as u128
        };
        let fine = witnesses >= 1 && reward >= 1 && (51..=99).contains(&min) && (collateral == 0 || collateral >= COLLATERAL) && (!w22 || ratio(reward)) && light && cost <= u64::MAX as u128;
        let want = spend(&l, &ptrs, epoch).filter(|_| fine).and_then(|v| fee(v, &[cost as u64]));
        let what = format!("{witnesses} witnesses, reward {reward}, fee {fee_}, consensus {min}, collateral {collateral}, inputs {ins:?}, ratio checked {w22}, light {light}");
        c.op(|| what.clone());
        let names: Vec<&str> = WIPS.iter().copied().filter(|n| w22 || *n != "WIP0022").collect();
        judge(c, "data request", e.validate(&Transaction::DataRequest(tx), &names), want, &what)
    });
    explore(run, "data requests: the transaction", |c| {
        let epoch = c.of(&[500, 2500]);
        let l = coins(epoch);
        let e = Env::new(&l, epoch);
        let ins = choose(c, 2);
        let ptrs: Vec<_> = ins.iter().map(|i| ptr(*i as u8, 0)).collect();
        // costs 2 * (10 + 2 * 1)
        let dr = request(2, 10, 1, 51, 0);
        let outs: Vec<(u8, u64)> = c.seq(&[(1, 0), (1, 1), (1, 76), (1, 77), (2, 1), (2, 46), (1, u64::MAX)], 2);
        let mut tx = DRTransaction::new(DRTransactionBody::new(inputs(&ptrs), dr, outs.iter().map(|(o, v)| vto(*o, *v, 0)).collect()), vec![]);
        let owners: Vec<u8> = ins.iter().map(|i| owner(*i)).collect();
        let h = tx.versioned_hash(protocol(epoch));
        let (sigs, signed) = sign_for(c, &owners, h);
        tx.signatures = sigs;
        let change = match &outs[..] {
            [] => true,
            [(o, v)] => *v > 0 && owners.first() == Some(o),
            _ => false,
        };
        let values: Vec<u64> = outs.iter().map(|x| x.1).chain([24]).collect();
        let want = spend(&l, &ptrs, epoch).filter(|_| !ins.is_empty() && signed && change).and_then(|v| fee(v, &values));
        let what = format!("request from {ins:?} with change {outs:?}, signed {signed}");
        c.op(|| what.clone());
        judge(c, "data request", e.validate(&Transaction::DataRequest(tx), &["WIP0017-0018-0019", "WIP0020-0021"]), want, &what)
    });
}

/// Key 5 validates for key 1, with 20 000 wits since epoch 7 (which is the nonce).
pub const STAKED: u64 = 20_000 * WIT;
pub fn stakes() -> StakesTracker {
    let mut s = StakesTracker::default();
    s.add_stake(stake_key(5, 1), Wit::from_nanowits(STAKED), 7, true, Wit::from_nanowits(MIN_STAKE)).unwrap();
    s
}
fn staking(run: &mut Run) {
    let two = run.thorough();
    explore(run, "stake transactions", move |c| {
        let epoch = c.of(&EPOCHS);
        let now = time(epoch) as u64;
        let l: Ledger = [(0, vto(1, MIN_STAKE, 0)), (1, vto(1, 200, 0)), (2, vto(1, 2 * MIN_STAKE, now + 1)), (3, vto(2, MAX_STAKE, now)), (4, vto(1, u64::MAX - MIN_STAKE, 0))].into_iter().map(|(i, o)| (ptr(i, 0), (o, 0))).collect();
        let mut e = Env::new(&l, epoch);
        e.stakes = stakes();
        let ins: Vec<usize> = c.seq(&[0, 1, 2, 3, 4, 6], if two { 3 } else { 2 });
        let ptrs: Vec<_> = ins.iter().map(|i| ptr(*i as u8, 0)).collect();
        let (v, w) = c.of(&[(5, 1), (5, 2), (6, 1), (1, 5)]);
        let value = c.of(&[0, MIN_STAKE - 1, MIN_STAKE, MAX_STAKE - STAKED, MAX_STAKE - STAKED + 1, MAX_STAKE, MAX_STAKE + 1, u64::MAX]);
        let change = c.of(&[None, Some(1), Some(200), Some(201), Some(u64::MAX - MIN_STAKE + 1), Some(u64::MAX)]);
        let output = StakeOutput { value, key: stake_key(v, w), authorization: authorization(v, w) };
        let mut tx = StakeTransaction::new(StakeTransactionBody::new(inputs(&ptrs), output, change.map(|x| vto(1, x, 0))), vec![]);
        let owners: Vec<u8> = ins.iter().map(|i| owner(*i)).collect();
        let h = tx.versioned_hash(protocol(epoch));
        let (sigs, signed) = sign_for(c, &owners, h);
        tx.signatures = sigs;
        let already = if (v, w) == (5, 1) { STAKED } else { 0 };
        let fine = version(epoch) >= 1 && signed && !ins.is_empty() && value >= MIN_STAKE && value as u128 + already as u128 <= MAX_STAKE as u128 && (v, w) != (5, 2);
        let want = spend(&l, &ptrs, epoch).filter(|_| fine).and_then(|s| fee(s, &[value, change.unwrap_or(0)]));
        let what = format!("stake {value} on {v} for {w} from {ins:?}, change {change:?}, signed {signed}, epoch {epoch}");
        c.op(|| what.clone());
        judge(c, "stake", e.validate(&Transaction::Stake(tx), &WIPS), want, &what)
    });
    explore(run, "stake authorizations", |c| {
        let epoch = c.of(&EPOCHS[1..]);
        let l: Ledger = [(ptr(0, 0), (vto(1, MIN_STAKE, 0), 0))].into();
        let mut e = Env::new(&l, epoch);
        e.stakes = stakes();
        let (v, w) = c.of(&[(5, 1), (6, 1), (6, 2), (1, 5)]);
        let (auth, right) = match c.pick(5) {
            0 => (authorization(v, w), true),
            1 => (authorization(v, 9), false),
            2 => (authorization(9, w), false),
            3 => (KeyedSignature { public_key: public(v), ..authorization(9, w) }, false),
            _ => (KeyedSignature::default(), false),
        };
        let output = StakeOutput { value: MIN_STAKE, key: stake_key(v, w), authorization: auth };
        let mut tx = StakeTransaction::new(StakeTransactionBody::new(inputs(&[ptr(0, 0)]), output, None), vec![]);
        tx.signatures = vec![signed(1, tx.versioned_hash(protocol(epoch)))];
        let what = format!("stake on {v} for {w}, which the validator authorized: {right}");
        c.op(|| what.clone());
        judge(c, "stake", e.validate(&Transaction::Stake(tx), &WIPS), right.then_some(0), &what)
    });
    explore(run, "unstake transactions", |c| {
        let epoch = c.of(&EPOCHS);
        let mut e = Env::new(&Ledger::new(), epoch);
        e.stakes = stakes();
        let operator = c.of(&[5, 6]);
        let (signer, to) = c.of(&[(1, 1), (5, 5), (1, 2), (2, 1), (2, 2)]);
        let value = c.of(&[1, MIN_STAKE - 1, MIN_STAKE, MIN_STAKE + 1, STAKED - 1, STAKED, STAKED + 1, u64::MAX - 1, u64::MAX]);
        let fee_ = c.of(&[0, 1, 2, MIN_STAKE, STAKED, u64::MAX, u64::MAX - MIN_STAKE + 1]);
        let nonce = c.of(&[7, 0, 6, 8, u64::MAX]);
        let lock = c.of(&[0, UNSTAKE_DELAY - 1, UNSTAKE_DELAY, UNSTAKE_DELAY + 1, u64::MAX]);
        let body = UnstakeTransactionBody::new(pkh(operator), vto(to, value, lock), fee_, nonce);
        let mut tx = UnstakeTransaction::new(body, KeyedSignature::default());
        let h = tx.versioned_hash(protocol(epoch));
        let sig = c.pick(4);
        tx.signature = match sig {
            0 => signed(signer, h),
            1 => signed(signer, Hash::SHA256([7; 32])),
            2 => KeyedSignature { public_key: public(signer), ..signed(9, h) },
            _ => KeyedSignature { signature: Signature::default(), ..signed(signer, h) },
        };
        let total = value as u128 + fee_ as u128;
        let rest = (STAKED as u128).checked_sub(total);
        let fine = version(epoch) >= 2 && operator == 5 && signer == 1 && to == 1 && sig == 0 && nonce == 7 && lock >= UNSTAKE_DELAY && rest.is_some_and(|r| r == 0 || r >= MIN_STAKE as u128);
        let what = format!("unstake {value} + {fee_} from {operator}, to {to}, by {signer}, nonce {nonce}, lock {lock}, signature {sig}, epoch {epoch}");
        c.op(|| what.clone());
        let got = e.validate(&Transaction::Unstake(tx.clone()), &WIPS);
        judge(c, "unstake", got, fine.then_some(fee_), &what)?;
        if fine {
            let mut s = e.stakes.clone();
            process_unstake_transactions(&mut s, [&tx].into_iter(), epoch, MIN_STAKE).map_err(|e| e.to_string())?;
            let left: u64 = s.query_stakes(QueryStakesKey::Validator(pkh(5))).map(|v| v.iter().map(|x| x.value.coins.nanowits()).sum()).unwrap_or(0);
            same!(left as u128, rest.unwrap(), "stake that remains after {what}");
            e.stakes = s;
            for later in [epoch, epoch + 1] {
                e.epoch = later;
                ensure!(e.validate(&Transaction::Unstake(tx.clone()), &WIPS).is_err(), "accepted again at epoch {later}: {what}");
            }
        }
        Ok(())
    });
}

pub fn transactions(run: &mut Run) {
    setup();
    run.assume("signatures are made with real secp256k1 keys; the chain has versions 1.8, 2.0 and 2.1 active from epochs 1000, 2000 and 3000");
    transfers(run);
    requests(run);
    staking(run);
}
