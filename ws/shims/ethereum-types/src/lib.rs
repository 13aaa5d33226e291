//! Stand-in for ethereum-types: the part of `U256` used here (big endian conversions and division by a word).
use std::ops::{Div, Rem, Add, Sub, Mul};
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]);
impl U256 {
    pub fn from_big_endian(b: &[u8]) -> Self {
        assert!(b.len() <= 32);
        let mut full = [0u8; 32];
        full[32 - b.len()..].copy_from_slice(b);
        let mut w = [0; 4];
        for i in 0..4 {
            w[3 - i] = u64::from_be_bytes(full[i * 8..i * 8 + 8].try_into().unwrap());
        }
        U256(w)
    }
    pub fn to_big_endian(&self) -> [u8; 32] {
        let mut out = [0; 32];
        for i in 0..4 {
            out[i * 8..i * 8 + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        out
    }
    pub fn zero() -> Self {
        U256([0; 4])
    }
    pub fn one() -> Self {
        U256::from(1u64)
    }
    pub fn max_value() -> Self {
        U256([u64::MAX; 4])
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn low_u64(&self) -> u64 {
        self.0[0]
    }
    pub fn low_u128(&self) -> u128 {
        u128::from(self.0[0]) | u128::from(self.0[1]) << 64
    }
    pub fn as_u64(&self) -> u64 {
        assert!(self.0[1..] == [0; 3], "Integer overflow when casting to u64");
        self.0[0]
    }
    fn bit(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (mut r, mut c) = ([0; 4], false);
        for i in 0..4 {
            let (a, c1) = self.0[i].overflowing_add(o.0[i]);
            let (b, c2) = a.overflowing_add(c as u64);
            r[i] = b;
            c = c1 || c2;
        }
        (U256(r), c)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let (mut r, mut c) = ([0; 4], false);
        for i in 0..4 {
            let (a, c1) = self.0[i].overflowing_sub(o.0[i]);
            let (b, c2) = a.overflowing_sub(c as u64);
            r[i] = b;
            c = c1 || c2;
        }
        (U256(r), c)
    }
    pub fn div_mod(self, d: Self) -> (Self, Self) {
        assert!(!d.is_zero(), "division by zero");
        let (mut q, mut r) = (U256::zero(), U256::zero());
        for i in (0..256).rev() {
            let (r2, carry) = r.overflowing_add(r);
            r = r2;
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if carry || r >= d {
                r = r.overflowing_sub(d).0;
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for U256 { fn from(x: $t) -> Self { let x = x as u128; U256([x as u64, (x >> 64) as u64, 0, 0]) } })* } }
from!(u8 u16 u32 u64 u128 usize);
impl From<[u8; 32]> for U256 {
    fn from(b: [u8; 32]) -> Self {
        Self::from_big_endian(&b)
    }
}
impl From<&[u8]> for U256 {
    fn from(b: &[u8]) -> Self {
        Self::from_big_endian(b)
    }
}
impl<T: Into<U256>> Div<T> for U256 {
    type Output = U256;
    fn div(self, o: T) -> U256 {
        self.div_mod(o.into()).0
    }
}
impl<T: Into<U256>> Rem<T> for U256 {
    type Output = U256;
    fn rem(self, o: T) -> U256 {
        self.div_mod(o.into()).1
    }
}
impl<T: Into<U256>> Add<T> for U256 {
    type Output = U256;
    fn add(self, o: T) -> U256 {
        let (r, c) = self.overflowing_add(o.into());
        assert!(!c, "arithmetic operation overflow");
        r
    }
}
impl<T: Into<U256>> Sub<T> for U256 {
    type Output = U256;
    fn sub(self, o: T) -> U256 {
        let (r, c) = self.overflowing_sub(o.into());
        assert!(!c, "arithmetic operation overflow");
        r
    }
}
impl<T: Into<U256>> Mul<T> for U256 {
    type Output = U256;
    fn mul(self, o: T) -> U256 {
        let o = o.into();
        let mut r = U256::zero();
        for i in (0..256).rev() {
            r = r + r;
            if o.bit(i) {
                r = r + self;
            }
        }
        r
    }
}
impl std::fmt::Debug for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl std::fmt::Display for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (mut s, mut x) = (vec![], *self);
        loop {
            let (q, r) = x.div_mod(U256::from(10u8));
            s.push(b'0' + r.low_u64() as u8);
            x = q;
            if x.is_zero() {
                break;
            }
        }
        s.reverse();
        f.write_str(std::str::from_utf8(&s).unwrap())
    }
}
