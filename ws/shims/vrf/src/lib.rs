//! Stand-in for vrf 0.2: ECVRF-SECP256K1-SHA256-TAI (draft 05) on top of the secp256k1 crate.
pub trait VRF<PrivateKey, PublicKey> {
    type Error;
    fn prove(&mut self, x: PrivateKey, alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, y: PublicKey, pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
}
pub mod openssl {
    use super::VRF;
    use secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey, All};
    use sha2::{Digest, Sha256};

    #[allow(non_camel_case_types)]
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CipherSuite {
        P256_SHA256_TAI,
        K163_SHA256_TAI,
        SECP256K1_SHA256_TAI,
    }
    #[derive(Debug, thiserror::Error)]
    pub enum Error {
        #[error("The `hash_to_point()` function could not find a valid point")]
        HashToPointError,
        #[error("The proof length is invalid")]
        InvalidPiLength,
        #[error("The proof is invalid")]
        InvalidProof,
        #[error("Error with openssl: {0}")]
        CodedError(#[from] secp256k1::Error),
        #[error("Unknown error")]
        Unknown,
    }
    const SUITE: u8 = 0xfe;
    #[derive(Debug)]
    pub struct ECVRF(Secp256k1<All>);

    fn c_scalar(c: &[u8]) -> [u8; 32] {
        let mut b = [0; 32];
        b[16..].copy_from_slice(c);
        b
    }
    impl ECVRF {
        pub fn from_suite(suite: CipherSuite) -> Result<Self, Error> {
            if suite != CipherSuite::SECP256K1_SHA256_TAI {
                return Err(Error::Unknown);
            }
            Ok(ECVRF(Secp256k1::new()))
        }
        pub fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(SecretKey::from_slice(sk)?.public_key(&self.0).serialize().to_vec())
        }
        fn hash_to_point(&self, pk: &[u8], alpha: &[u8]) -> Result<PublicKey, Error> {
            for ctr in 0..=255u8 {
                let mut h = Sha256::new();
                h.update([SUITE, 1]);
                h.update(pk);
                h.update(alpha);
                h.update([ctr]);
                let mut b = vec![2];
                b.extend(h.finalize());
                if let Ok(p) = PublicKey::from_slice(&b) {
                    return Ok(p);
                }
            }
            Err(Error::HashToPointError)
        }
        fn hash_points(pts: &[&PublicKey]) -> Vec<u8> {
            let mut h = Sha256::new();
            h.update([SUITE, 2]);
            for p in pts {
                h.update(p.serialize());
            }
            h.finalize()[..16].to_vec()
        }
        pub fn proof_to_hash(&mut self, pi: &[u8]) -> Result<Vec<u8>, Error> {
            if pi.len() != 81 {
                return Err(Error::InvalidPiLength);
            }
            let gamma = PublicKey::from_slice(&pi[..33])?;
            let mut h = Sha256::new();
            h.update([SUITE, 3]);
            h.update(gamma.serialize());
            Ok(h.finalize().to_vec())
        }
    }
    impl VRF<&[u8], &[u8]> for ECVRF {
        type Error = Error;
        fn prove(&mut self, x: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let sk = SecretKey::from_slice(x)?;
            let pk = sk.public_key(&self.0).serialize();
            let hp = self.hash_to_point(&pk, alpha)?;
            let gamma = hp.mul_tweak(&self.0, &Scalar::from(sk))?;
            let mut h = Sha256::new();
            h.update(x);
            h.update(hp.serialize());
            let k = SecretKey::from_slice(&h.finalize())?;
            let c = Self::hash_points(&[
                &hp,
                &gamma,
                &k.public_key(&self.0),
                &hp.mul_tweak(&self.0, &Scalar::from(k))?,
            ]);
            let cx = sk.mul_tweak(&Scalar::from_be_bytes(c_scalar(&c)).map_err(|_| Error::Unknown)?)?;
            let s = k.add_tweak(&Scalar::from(cx))?;
            let mut pi = gamma.serialize().to_vec();
            pi.extend(c);
            pi.extend(s.secret_bytes());
            Ok(pi)
        }
        fn verify(&mut self, y: &[u8], pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            if pi.len() != 81 {
                return Err(Error::InvalidPiLength);
            }
            let pk = PublicKey::from_slice(y)?;
            let gamma = PublicKey::from_slice(&pi[..33])?;
            let c = &pi[33..49];
            let s = SecretKey::from_slice(&pi[49..])?;
            let cs = Scalar::from_be_bytes(c_scalar(c)).map_err(|_| Error::Unknown)?;
            let hp = self.hash_to_point(&pk.serialize(), alpha)?;
            let u = s.public_key(&self.0).combine(&pk.mul_tweak(&self.0, &cs)?.negate(&self.0))?;
            let v = hp
                .mul_tweak(&self.0, &Scalar::from(s))?
                .combine(&gamma.mul_tweak(&self.0, &cs)?.negate(&self.0))?;
            if Self::hash_points(&[&hp, &gamma, &u, &v]) != c {
                return Err(Error::InvalidProof);
            }
            self.proof_to_hash(pi)
        }
    }
}
