//! Stand-in for the part of bech32 0.11 used here, on top of bech32 0.7.
use old::{FromBase32, ToBase32};
pub use old::Error as DecodeError;
pub use old::Error as EncodeError;
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Hrp(String);
impl Hrp {
    pub fn parse_unchecked(s: &str) -> Self {
        Hrp(s.to_string())
    }
    pub fn parse(s: &str) -> Result<Self, DecodeError> {
        if s.is_empty() || s.len() > 83 || !s.bytes().all(|b| (33..=126).contains(&b)) {
            return Err(DecodeError::InvalidLength);
        }
        Ok(Hrp(s.to_string()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn to_lowercase(&self) -> String {
        self.0.to_lowercase()
    }
}
impl std::fmt::Display for Hrp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
pub trait Checksum {}
#[derive(Debug, Clone, Copy)]
pub enum Bech32 {}
impl Checksum for Bech32 {}
pub fn encode<C: Checksum>(hrp: Hrp, data: &[u8]) -> Result<String, EncodeError> {
    old::encode(&hrp.0, data.to_base32())
}
pub fn decode(s: &str) -> Result<(Hrp, Vec<u8>), DecodeError> {
    let (hrp, d) = old::decode(s)?;
    Ok((Hrp(hrp), Vec::<u8>::from_base32(&d)?))
}
