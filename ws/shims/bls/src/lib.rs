//! Stand-in for witnet-bls-signatures: the same interface and byte sizes over a *mock* scheme in the
//! scalar field modulo 2^61-1 (public key = the scalar itself), so it is deterministic, aggregates and
//! verifies like BLS, but offers no secrecy.
use sha2::{Digest, Sha256};

#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("Unknown error")]
    Unknown,
}
const P: u128 = (1 << 61) - 1;
fn h(data: &[u8]) -> u128 {
    let d = Sha256::digest(data);
    u128::from_be_bytes(d[..16].try_into().unwrap()) % P
}
fn enc(len: usize, prefix: u8, x: u128) -> Vec<u8> {
    let mut v = vec![0; len];
    v[0] = prefix;
    v[len - 16..].copy_from_slice(&x.to_be_bytes());
    v
}
fn dec(b: &[u8], len: usize) -> Result<u128, Error> {
    if b.len() != len || !(2..=11).contains(&b[0]) {
        return Err(Error::Unknown);
    }
    Ok(u128::from_be_bytes(b[len - 16..].try_into().unwrap()) % P)
}

pub trait MultiSignature<SecretKey, PublicKey, Signature> {
    type Error;
    fn derive_public_key(&mut self, secret_key: SecretKey) -> Result<Vec<u8>, Self::Error>;
    fn sign(&mut self, secret_key: SecretKey, message: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, signature: Signature, message: &[u8], public_key: PublicKey) -> Result<(), Self::Error>;
    fn aggregate_public_keys(&mut self, public_keys: &[PublicKey]) -> Result<Vec<u8>, Self::Error>;
    fn aggregate_signatures(&mut self, signatures: &[Signature]) -> Result<Vec<u8>, Self::Error>;
}

pub mod bn256 {
    use super::*;
    pub struct Bn256;
    #[derive(Debug, Clone)]
    pub struct PublicKey(Vec<u8>);
    impl PublicKey {
        pub fn from_compressed<T: AsRef<[u8]>>(b: T) -> Result<Self, Error> {
            dec(b.as_ref(), 65)?;
            Ok(PublicKey(b.as_ref().to_vec()))
        }
        pub fn to_compressed(&self) -> Result<Vec<u8>, Error> {
            Ok(self.0.clone())
        }
        pub fn to_uncompressed(&self) -> Result<Vec<u8>, Error> {
            let mut v = self.0.clone();
            v[0] = 4;
            v.extend(Sha256::digest(&self.0));
            v.extend(Sha256::digest(&v));
            Ok(v)
        }
    }
    #[derive(Debug, Clone)]
    pub struct PrivateKey(u128);
    impl PrivateKey {
        pub fn new<T: AsRef<[u8]>>(b: T) -> Result<Self, Error> {
            if b.as_ref().len() != 32 {
                return Err(Error::Unknown);
            }
            Ok(PrivateKey(h(b.as_ref())))
        }
        pub fn to_bytes(&self) -> Result<Vec<u8>, Error> {
            Ok(enc(32, 0, self.0))
        }
    }
    impl MultiSignature<&[u8], &[u8], &[u8]> for Bn256 {
        type Error = Error;
        fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(enc(65, 10, PrivateKey::new(sk)?.0))
        }
        fn sign(&mut self, sk: &[u8], m: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(enc(33, 2, PrivateKey::new(sk)?.0 * h(m) % P))
        }
        fn verify(&mut self, s: &[u8], m: &[u8], pk: &[u8]) -> Result<(), Error> {
            (dec(s, 33)? == dec(pk, 65)? * h(m) % P).then_some(()).ok_or(Error::Unknown)
        }
        fn aggregate_public_keys(&mut self, v: &[&[u8]]) -> Result<Vec<u8>, Error> {
            let mut s = 0;
            for x in v {
                s = (s + dec(x, 65)?) % P;
            }
            Ok(enc(65, 10, s))
        }
        fn aggregate_signatures(&mut self, v: &[&[u8]]) -> Result<Vec<u8>, Error> {
            let mut s = 0;
            for x in v {
                s = (s + dec(x, 33)?) % P;
            }
            Ok(enc(33, 2, s))
        }
    }
}
