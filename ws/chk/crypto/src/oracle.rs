//! Independent and deliberately plain versions of the standards.
use sha2::Digest;

pub fn sha256(d: &[u8]) -> [u8; 32] {
    sha2::Sha256::digest(d).into()
}
/// SHA-256 written out (FIPS 180-4), so that the oracle does not rest on one library.
pub fn sha256_plain(d: &[u8]) -> [u8; 32] {
    fn primes(n: usize) -> Vec<u64> {
        (2u64..).filter(|x| (2..*x).all(|y| x % y != 0)).take(n).collect()
    }
    // Fractional parts of square and cube roots, by integer search.
    fn frac_root(p: u64, k: u32) -> u32 {
        // floor(p^(1/k) * 2^32) mod 2^32
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            let ok = if k == 2 { m * m <= (p as u128) << 64 } else { cube_le(m, p) };
            if ok { lo = m } else { hi = m }
        }
        lo as u32
    }
    fn cube_le(m: u128, p: u64) -> bool {
        // m^3 <= p * 2^96, m < 2^40
        let m2 = m * m;
        let (h, l) = (m2 >> 40, m2 & ((1 << 40) - 1));
        // m^3 = (h*m) << 40 + l*m
        let a = h * m;
        let b = l * m;
        // compare a*2^40 + b with p*2^96
        let a2 = a + (b >> 40);
        let rest = b & ((1 << 40) - 1);
        let lim = (p as u128) << 56;
        a2 < lim || (a2 == lim && rest == 0)
    }
    let pr = primes(64);
    let k: Vec<u32> = pr.iter().map(|p| frac_root(*p, 3)).collect();
    let mut h: Vec<u32> = pr[..8].iter().map(|p| frac_root(*p, 2)).collect();
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((d.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
        for i in 16..64 {
            let (a, b) = (w[i - 15], w[i - 2]);
            let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
            let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>().try_into().unwrap()
}
pub fn sha512(d: &[u8]) -> [u8; 64] {
    sha2::Sha512::digest(d).into()
}
fn hmac(block: usize, h: impl Fn(&[u8]) -> Vec<u8>, key: &[u8], d: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend(d);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend(h(&i));
    h(&o)
}
pub fn hmac512(key: &[u8], d: &[u8]) -> Vec<u8> {
    hmac(128, |x| sha512(x).to_vec(), key, d)
}
pub fn hmac256(key: &[u8], d: &[u8]) -> Vec<u8> {
    hmac(64, |x| sha256(x).to_vec(), key, d)
}
/// One block of PBKDF2 (enough for a digest-sized key).
pub fn pbkdf2(mac: impl Fn(&[u8], &[u8]) -> Vec<u8>, pass: &[u8], salt: &[u8], c: u32) -> Vec<u8> {
    let mut s = salt.to_vec();
    s.extend([0, 0, 0, 1]);
    let mut u = mac(pass, &s);
    let mut r = u.clone();
    for _ in 1..c {
        u = mac(pass, &u);
        for (a, b) in r.iter_mut().zip(&u) {
            *a ^= b;
        }
    }
    r
}
/// The order of secp256k1.
pub const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
/// a + b mod n, for a, b < n.
pub fn add_mod(a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut r = [0u16; 33];
    for i in (0..32).rev() {
        let s = a[i] as u16 + b[i] as u16 + r[i + 1];
        r[i + 1] = s & 255;
        r[i] = s >> 8;
    }
    let ge = r[0] > 0 || r[1..].iter().zip(&N).find(|(x, y)| **x != **y as u16).is_none_or(|(x, y)| *x > *y as u16);
    let mut out = [0u8; 32];
    if ge {
        let mut borrow = 0i32;
        for i in (0..32).rev() {
            let mut d = r[i + 1] as i32 - N[i] as i32 - borrow;
            borrow = (d < 0) as i32;
            if d < 0 {
                d += 256;
            }
            out[i] = d as u8;
        }
    } else {
        for i in 0..32 {
            out[i] = r[i + 1] as u8;
        }
    }
    out
}
const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
/// BIP-173 encoding of bytes.
pub fn bech32(hrp: &str, data: &[u8]) -> String {
    bech32_5(hrp, &to5(data))
}
pub fn to5(data: &[u8]) -> Vec<u8> {
    let (mut acc, mut bits, mut v) = (0u32, 0, vec![]);
    for b in data {
        acc = (acc << 8 | *b as u32) & 0xfff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            v.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        v.push((acc << (5 - bits) & 31) as u8);
    }
    v
}
pub fn bech32_5(hrp: &str, v: &[u8]) -> String {
    let mut x: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    x.push(0);
    x.extend(hrp.bytes().map(|b| b & 31));
    x.extend(v);
    x.extend([0; 6]);
    let gen_ = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut c = 1u32;
    for b in x {
        let t = c >> 25;
        c = (c & 0x1ffffff) << 5 ^ b as u32;
        for (i, g) in gen_.iter().enumerate() {
            if t >> i & 1 == 1 {
                c ^= g;
            }
        }
    }
    c ^= 1;
    let mut s = format!("{hrp}1");
    for b in v {
        s.push(CHARS[*b as usize] as char);
    }
    for i in 0..6 {
        s.push(CHARS[(c >> (5 * (5 - i)) & 31) as usize] as char);
    }
    s
}
pub fn bech32_chars() -> &'static [u8; 32] {
    CHARS
}

/// Root of the tree described in the documentation: pairs are joined, an odd node is promoted.
pub fn merkle_root(l: &[[u8; 32]]) -> [u8; 32] {
    if l.is_empty() {
        return sha256(&[]);
    }
    let mut v = l.to_vec();
    while v.len() > 1 {
        v = v.chunks(2).map(|c| if c.len() == 2 { sha256(&[c[0], c[1]].concat()) } else { c[0] }).collect();
    }
    v[0]
}
/// (siblings from the bottom up, whether each is on the left)
pub fn merkle_path(l: &[[u8; 32]], mut i: usize) -> Vec<([u8; 32], bool)> {
    let mut v = l.to_vec();
    let mut p = vec![];
    while v.len() > 1 {
        if i % 2 == 1 {
            p.push((v[i - 1], true));
        } else if i + 1 < v.len() {
            p.push((v[i + 1], false));
        }
        v = v.chunks(2).map(|c| if c.len() == 2 { sha256(&[c[0], c[1]].concat()) } else { c[0] }).collect();
        i /= 2;
    }
    p
}
