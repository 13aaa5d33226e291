//! Stand-in for bs58 0.5 (Bitcoin alphabet).
const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error { InvalidCharacter { character: char, index: usize }, NonAsciiCharacter { index: usize } }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self { Error::InvalidCharacter { character, index } => write!(f, "provided string contained invalid character {character:?} at byte {index}"), Error::NonAsciiCharacter { index } => write!(f, "provided string contained non-ascii character starting at byte {index}") }
        }
    }
    impl std::error::Error for Error {}
}
fn convert(d: &[u32], from: u32, to: u32) -> Vec<u8> {
    let zeros = d.iter().take_while(|x| **x == 0).count();
    let mut out: Vec<u32> = vec![];
    for x in d {
        let mut c = *x;
        for o in out.iter_mut() {
            c += *o * from;
            *o = c % to;
            c /= to;
        }
        while c > 0 {
            out.push(c % to);
            c /= to;
        }
    }
    std::iter::repeat_n(0, zeros).chain(out.into_iter().rev().map(|x| x as u8)).collect()
}
pub struct Enc(Vec<u8>);
impl Enc {
    pub fn into_string(self) -> String {
        convert(&self.0.iter().map(|x| *x as u32).collect::<Vec<_>>(), 256, 58).into_iter().map(|i| A[i as usize] as char).collect()
    }
    pub fn into_vec(self) -> Vec<u8> { self.into_string().into_bytes() }
}
pub fn encode<I: AsRef<[u8]>>(i: I) -> Enc { Enc(i.as_ref().to_vec()) }
pub struct Dec(Vec<u8>);
impl Dec {
    pub fn into_vec(self) -> Result<Vec<u8>, decode::Error> {
        let mut d = vec![];
        for (index, b) in self.0.iter().enumerate() {
            if *b > 127 { return Err(decode::Error::NonAsciiCharacter { index }) }
            d.push(A.iter().position(|a| a == b).ok_or(decode::Error::InvalidCharacter { character: *b as char, index })? as u32);
        }
        Ok(convert(&d, 58, 256))
    }
}
pub fn decode<I: AsRef<[u8]>>(i: I) -> Dec { Dec(i.as_ref().to_vec()) }
