//! The chain around the code under test: keys, epochs, constants, and a plain ledger.
use std::collections::BTreeMap;
use std::sync::{LazyLock, Once};
use witnet_crypto::secp256k1::{PublicKey as SPublicKey, SecretKey as SSecretKey};
use witnet_crypto::signature::sign;
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::register_protocol_version;
use witnet_data_structures::staking::helpers::StakeKey;
use witnet_data_structures::utxo_pool::UnspentOutputsPool;
use witnet_data_structures::vrf::VrfCtx;

pub const WIT: u64 = 1_000_000_000;
pub const MIN_STAKE: u64 = 10_000 * WIT;
pub const MAX_STAKE: u64 = 10_000_000 * WIT;
pub const UNSTAKE_DELAY: u64 = 14 * 24 * 3600;
/// When versions 1.8, 2.0 and 2.1 of the protocol take effect.
pub const V18: u32 = 1000;
pub const V20: u32 = 2000;
pub const V21: u32 = 3000;
pub const ZERO: i64 = 1_000_000;
/// An epoch of every version.
pub const EPOCHS: [u32; 4] = [500, 1500, 2500, 3500];

pub fn setup() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        register_protocol_version(ProtocolVersion::V1_7, 0, 45);
        register_protocol_version(ProtocolVersion::V1_8, V18, 45);
        register_protocol_version(ProtocolVersion::V2_0, V20, 20);
        register_protocol_version(ProtocolVersion::V2_1, V21, 20);
    });
}
/// The version in force, as a number.
pub fn version(epoch: u32) -> u8 {
    [V18, V20, V21].iter().filter(|&&e| e <= epoch).count() as u8
}
pub fn protocol(epoch: u32) -> ProtocolVersion {
    [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1][version(epoch) as usize]
}
pub fn time(epoch: u32) -> i64 {
    if epoch < V20 { ZERO + 45 * epoch as i64 } else { ZERO + 45 * V20 as i64 + 20 * (epoch - V20) as i64 }
}
pub fn epochs() -> EpochConstants {
    EpochConstants { checkpoint_zero_timestamp: ZERO, checkpoints_period: 45, checkpoint_zero_timestamp_wit2: time(V20), checkpoints_period_wit2: 20 }
}
pub fn wit2() -> ConsensusConstantsWit2 {
    ConsensusConstantsWit2 { checkpoint_zero_timestamp: ZERO, checkpoints_period: 45 }
}
pub fn wips(epoch: u32, names: &[&str]) -> ActiveWips {
    ActiveWips { active_wips: names.iter().map(|n| (n.to_string(), 0)).collect(), block_epoch: epoch }
}
pub const WIPS: [&str; 10] = ["WIP0008", "WIP0009-0011-0012", "THIRD_HARD_FORK", "WIP0014-0016", "WIP0017-0018-0019", "WIP0020-0021", "WIP0022", "WIP0023", "WIP0024", "WIP0025"];

static KEYS: LazyLock<Vec<(SSecretKey, PublicKey, PublicKeyHash)>> = LazyLock::new(|| {
    (1..=40u8)
        .map(|i| {
            let sk = SSecretKey::from_slice(&[i; 32]).unwrap();
            let pk = PublicKey::from(SPublicKey::from_secret_key_global(&sk));
            let pkh = pk.pkh();
            (sk, pk, pkh)
        })
        .collect()
});
pub fn public(i: u8) -> PublicKey {
    KEYS[i as usize].1.clone()
}
pub fn pkh(i: u8) -> PublicKeyHash {
    KEYS[i as usize].2
}
pub fn secret(i: u8) -> SecretKey {
    SecretKey::from(KEYS[i as usize].0)
}
pub fn signed(i: u8, hash: Hash) -> KeyedSignature {
    let Hash::SHA256(h) = hash;
    KeyedSignature { signature: Signature::from(sign(KEYS[i as usize].0, &h).unwrap()), public_key: public(i) }
}
pub fn hash(tag: u8, i: u8) -> Hash {
    let mut h = [tag; 32];
    h[0] = i;
    Hash::SHA256(h)
}
pub fn ptr(tx: u8, i: u32) -> OutputPointer {
    OutputPointer { transaction_id: hash(0xaa, tx), output_index: i }
}
pub fn vto(owner: u8, value: u64, time_lock: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(owner), value, time_lock }
}
pub fn stake_key(v: u8, w: u8) -> StakeKey<PublicKeyHash> {
    StakeKey { validator: pkh(v), withdrawer: pkh(w) }
}
pub fn inputs(p: &[OutputPointer]) -> Vec<Input> {
    p.iter().map(|p| Input::new(*p)).collect()
}
pub fn vrf<T>(f: impl FnOnce(&mut VrfCtx) -> T) -> T {
    thread_local!(static VRF: std::cell::RefCell<VrfCtx> = std::cell::RefCell::new(VrfCtx::secp256k1().unwrap()));
    VRF.with(|v| f(&mut v.borrow_mut()))
}

/// Unspent outputs with the number of the block they count from.
pub type Ledger = BTreeMap<OutputPointer, (ValueTransferOutput, u32)>;

pub fn pool(l: &Ledger) -> UnspentOutputsPool {
    let mut p = UnspentOutputsPool::default();
    for (k, (o, b)) in l {
        p.insert(*k, o.clone(), *b);
    }
    p
}
/// What a transaction which spends these outputs has to distribute, if it may spend them.
pub fn spend(l: &Ledger, ins: &[OutputPointer], epoch: u32) -> Option<u64> {
    let mut sum = 0u128;
    for (i, k) in ins.iter().enumerate() {
        let (o, _) = l.get(k)?;
        if ins[..i].contains(k) || o.time_lock as i128 > time(epoch) as i128 {
            return None;
        }
        sum += o.value as u128;
    }
    u64::try_from(sum).ok()
}
/// The fee left when `out` of the value `have` is given away.
pub fn fee(have: u64, out: &[u64]) -> Option<u64> {
    let out: u128 = out.iter().map(|x| *x as u128).sum();
    (have as u128).checked_sub(out).map(|x| x as u64)
}
