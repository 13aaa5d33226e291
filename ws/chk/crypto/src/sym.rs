use crate::oracle;
use aes::cipher::{BlockDecrypt, BlockEncrypt, NewBlockCipher};
use mc::{Ch, Run, ensure, explore, guard, same};
use witnet_crypto::cipher::{decrypt_aes_cbc, encrypt_aes_cbc, generate_random};
use witnet_crypto::hash::{EMPTY_SHA256, Sha256, calculate_sha256};
use witnet_crypto::pbkdf2::pbkdf2_sha256;
use witnet_crypto::secp256k1::{PublicKey, SecretKey, ecdsa::Signature};
use witnet_crypto::signature::{sign, verify};

fn bytes(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(13).wrapping_add(k)).collect()
}
/// CBC with PKCS#7 written out over the block cipher.
fn cbc(key: &[u8], p: &[u8], iv: &[u8]) -> Vec<u8> {
    let a = aes::Aes256::new_from_slice(key).unwrap();
    let pad = 16 - p.len() % 16;
    let mut m = p.to_vec();
    m.extend(vec![pad as u8; pad]);
    let mut prev = iv.to_vec();
    let mut out = vec![];
    for b in m.chunks(16) {
        let mut x: Vec<u8> = b.iter().zip(&prev).map(|(a, b)| a ^ b).collect();
        a.encrypt_block(aes::Block::from_mut_slice(&mut x));
        out.extend(&x);
        prev = x;
    }
    out
}
fn uncbc(key: &[u8], ct: &[u8], iv: &[u8]) -> Option<Vec<u8>> {
    if ct.is_empty() || ct.len() % 16 != 0 {
        return None;
    }
    let a = aes::Aes256::new_from_slice(key).unwrap();
    let mut prev = iv.to_vec();
    let mut out = vec![];
    for b in ct.chunks(16) {
        let mut x = b.to_vec();
        a.decrypt_block(aes::Block::from_mut_slice(&mut x));
        out.extend(x.iter().zip(&prev).map(|(a, b)| a ^ b));
        prev = b.to_vec();
    }
    let pad = *out.last().unwrap() as usize;
    if pad == 0 || pad > 16 || out[out.len() - pad..].iter().any(|b| *b as usize != pad) {
        return None;
    }
    out.truncate(out.len() - pad);
    Some(out)
}

pub fn cipher(run: &mut Run) {
    let max = run.pick(200, 1100);
    explore(run, "every plaintext length", move |c: &mut Ch| {
        let n = c.pick(max);
        let fill = c.pick(4);
        let p = match fill {
            0 => vec![0; n],
            1 => vec![16; n],
            2 => vec![1; n],
            _ => bytes(n, 3),
        };
        let key = bytes(32, c.of(&[0u8, 99]));
        let iv = c.of(&[vec![0; 16], bytes(16, 200)]);
        let e = encrypt_aes_cbc(&key, &p, &iv).map_err(|e| e.to_string())?;
        same!(e, cbc(&key, &p, &iv), "ciphertext of {n} bytes");
        same!(decrypt_aes_cbc(&key, &e, &iv).map_err(|e| e.to_string())?, p, "decrypted");
        c.op(|| format!("{n} bytes"));
        c.state(&(n, fill, key, iv));
        Ok(())
    });
    let big: Vec<usize> = run.pick(vec![255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 4097, 65_535, 65_536], vec![1500, 4096, 8191, 8192, 65_535, 65_536, 65_537, 1 << 20, (1 << 20) + 5]);
    explore(run, "long plaintexts", move |c: &mut Ch| {
        let n = c.of(&big);
        let (key, iv) = (bytes(32, 7), bytes(16, 8));
        let p = bytes(n, 3);
        let e = encrypt_aes_cbc(&key, &p, &iv).map_err(|e| e.to_string())?;
        ensure!(e == cbc(&key, &p, &iv), "ciphertext of {n} bytes is wrong");
        ensure!(decrypt_aes_cbc(&key, &e, &iv).map_err(|e| e.to_string())? == p, "decryption of {n} bytes is wrong");
        // Cut short, or with something after it: by up to two blocks.
        for k in 1..=33 {
            for d in [e[..e.len() - k].to_vec(), [&e[..], &bytes(k, 1)].concat()] {
                let r = guard(|| decrypt_aes_cbc(&key, &d, &iv))?.ok();
                ensure!(r == uncbc(&key, &d, &iv), "a ciphertext of {} bytes ({n} encrypted) decrypts to {:?} bytes", d.len(), r.map(|x| x.len()));
            }
        }
        c.ops(66);
        c.op(|| format!("{n} bytes"));
        c.state(&n);
        Ok(())
    });
    explore(run, "key and iv sizes", |c: &mut Ch| {
        let k = c.of(&[0usize, 1, 15, 16, 24, 31, 32, 33, 48, 64]);
        let i = c.of(&[0usize, 1, 8, 12, 15, 16, 17, 32]);
        let n = c.of(&[0usize, 16, 20]);
        let ok = k == 32 && i == 16;
        let e = guard(|| encrypt_aes_cbc(&bytes(k, 1), &bytes(n, 2), &bytes(i, 3)))?;
        same!(e.is_ok(), ok, "encrypt with key of {k} and iv of {i} bytes");
        let d = guard(|| decrypt_aes_cbc(&bytes(k, 1), &cbc(&bytes(32, 1), &bytes(n, 2), &bytes(16, 3)), &bytes(i, 3)))?;
        same!(d.is_ok(), ok, "decrypt with key of {k} and iv of {i} bytes");
        c.op(|| format!("key {k}, iv {i}"));
        c.state(&(k, i, n));
        c.outcome(if ok { "accepted" } else { "refused" });
        Ok(())
    });
    explore(run, "damaged ciphertexts", |c: &mut Ch| {
        let n = c.of(&[0usize, 1, 15, 16, 17, 31, 32]);
        let (key, iv) = (bytes(32, 1), bytes(16, 2));
        let good = cbc(&key, &bytes(n, 9), &iv);
        let mut e = good.clone();
        let (mut k2, mut i2) = (key.clone(), iv.clone());
        match c.pick(5) {
            0 => {
                let at = c.pick(e.len() * 8);
                e[at / 8] ^= 1 << (at % 8);
            }
            1 => {
                let k = c.pick(e.len());
                e.truncate(k);
            }
            2 => e.extend(bytes(c.pick(33), 7)),
            3 => {
                let at = c.pick(256);
                k2[at / 8] ^= 1 << (at % 8);
            }
            _ => {
                let at = c.pick(128);
                i2[at / 8] ^= 1 << (at % 8);
            }
        }
        let r = guard(|| decrypt_aes_cbc(&k2, &e, &i2))?.ok();
        same!(r, uncbc(&k2, &e, &i2), "decryption of a damaged ciphertext");
        c.outcome(if r.is_some() { "garbled plaintext" } else { "refused" });
        c.op(|| format!("{n} bytes"));
        c.state(&(e, k2, i2));
        Ok(())
    });
    let iters: Vec<u32> = run.pick(vec![1, 2, 3, 7, 100, 1000], vec![1, 2, 3, 7, 100, 1000, 10_000, 100_000]);
    explore(run, "key derivation", move |c: &mut Ch| {
        let p = bytes(c.of(&[0usize, 1, 8, 32, 63, 64, 65, 100, 200]), 4);
        let s = bytes(c.of(&[0usize, 1, 8, 16, 32, 64, 100]), 5);
        let n = c.of(&iters);
        let k = pbkdf2_sha256(&p, &s, n);
        same!(k.as_ref(), &oracle::pbkdf2(|k, d| oracle::hmac256(k, d), &p, &s, n)[..], "derived key");
        c.op(|| format!("password of {}, salt of {}, {n} rounds", p.len(), s.len()));
        c.state(&(p, s, n));
        Ok(())
    });
    let many: Vec<u32> = run.pick(vec![1024, 4095, 4096, 9999, 10_000, 10_001, 16_385, 65_535, 65_536, 65_537, 100_000, 100_001], vec![65_536, 100_001, 262_145, 1_000_000, 1_000_001]);
    explore(run, "many rounds", move |c: &mut Ch| {
        let n = c.of(&many);
        let k = pbkdf2_sha256(b"password", b"salt", n);
        same!(k.as_ref(), &oracle::pbkdf2(|k, d| oracle::hmac256(k, d), b"password", b"salt", n)[..], "key derived with {n} rounds");
        c.ops(n as u64);
        c.op(|| format!("{n} rounds"));
        c.state(&n);
        Ok(())
    });
    explore(run, "long passwords and salts", |c: &mut Ch| {
        let (a, b) = (c.of(&[0usize, 8, 127, 128, 129, 255, 256, 257, 1000, 5000]), c.of(&[0usize, 8, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 5000]));
        // The very last byte counts.
        let (mut p, mut s) = (vec![0; a], vec![0; b]);
        for (v, what) in [(p.last_mut(), c.flag()), (s.last_mut(), c.flag())] {
            if let Some(x) = v.filter(|_| what) {
                *x = 1;
            }
        }
        let k = pbkdf2_sha256(&p, &s, 2);
        same!(k.as_ref(), &oracle::pbkdf2(|k, d| oracle::hmac256(k, d), &p, &s, 2)[..], "derived key");
        c.op(|| format!("password of {a}, salt of {b}"));
        c.state(&(p, s));
        Ok(())
    });
    // Whatever was derived, encrypted or decrypted before, every byte counts.
    explore(run, "one key derived after another", |c: &mut Ch| {
        let (a, b) = (c.of(&[0usize, 1, 8, 16, 32, 33, 65, 130]), c.of(&[0usize, 1, 8, 16, 32, 33, 65, 130]));
        let (p0, s0) = (bytes(a, 1), bytes(b, 2));
        let derive = |p: &[u8], s: &[u8], n: u32, what: &str| -> Result<(), String> {
            same!(pbkdf2_sha256(p, s, n).as_ref(), &oracle::pbkdf2(|k, d| oracle::hmac256(k, d), p, s, n)[..], "key derived from a password of {a} and a salt of {b} bytes, {n} rounds, {what}");
            Ok(())
        };
        let mut n = 0;
        for at in 0..a + b {
            let (mut p, mut s) = (p0.clone(), s0.clone());
            let what = if at < a {
                p[at] ^= 1;
                format!("but for byte {at} of the password")
            } else {
                s[at - a] ^= 1;
                format!("but for byte {} of the salt", at - a)
            };
            derive(&p0, &s0, 2, "the first")?;
            derive(&p, &s, 2, &what)?;
            derive(&p, &s, 3, "one round more")?;
            derive(&p, &s0, 3, "with the salt of the first")?;
            n += 4;
        }
        c.ops(n);
        c.op(|| format!("password of {a}, salt of {b}"));
        c.state(&(a, b));
        Ok(())
    });
    explore(run, "one message after another", |c: &mut Ch| {
        let n = c.of(&[0usize, 1, 15, 16, 17, 32, 40, 100, 256]);
        let first = c.pick(2);
        let x0 = (bytes(32, 1), bytes(n, 2), bytes(16, 3));
        for at in 0..48 + n {
            let mut x = x0.clone();
            match at {
                0..32 => x.0[at] ^= 0x40,
                32..48 => x.2[at - 32] ^= 0x40,
                _ => x.1[at - 48] ^= 0x40,
            }
            let (e0, e) = (cbc(&x0.0, &x0.1, &x0.2), cbc(&x.0, &x.1, &x.2));
            let two = if first == 0 { [(&x0, &e0), (&x, &e)] } else { [(&x, &e), (&x0, &e0)] };
            for (x, e) in two {
                same!(encrypt_aes_cbc(&x.0, &x.1, &x.2).map_err(|e| e.to_string())?, *e, "ciphertext of {n} bytes; they differ in byte {at} of key, iv and text");
            }
            for (x, e) in two {
                same!(decrypt_aes_cbc(&x.0, e, &x.2).map_err(|e| e.to_string())?, x.1, "text of {n} bytes decrypted; they differ in byte {at} of key, iv and text");
            }
            // With the key and the iv of the other.
            for ((x, _), (_, e)) in [(two[0], two[1]), (two[1], two[0])] {
                same!(guard(|| decrypt_aes_cbc(&x.0, e, &x.2))?.ok(), uncbc(&x.0, e, &x.2), "decryption with the other's key and iv");
            }
        }
        c.ops(6 * (48 + n) as u64);
        c.op(|| format!("{n} bytes"));
        c.state(&(n, first));
        Ok(())
    });
    crate::keys::other_runs(run, "random bytes of other runs");
    explore(run, "random bytes", |c: &mut Ch| {
        let n = c.of(&[0usize, 1, 16, 17, 32, 64, 128, 256, 257, 300, 1025, 4097]);
        let v: Vec<Vec<u8>> = (0..64).map(|_| generate_random(n).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        ensure!(v.iter().all(|x| x.len() == n), "wrong size");
        for i in 0..n {
            ensure!(v.iter().any(|x| x[i] != v[0][i]), "byte {i} of {n} never varies");
        }
        // No twelve bytes come twice, neither in one answer nor in two.
        static SEEN: std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
        ensure!(v.iter().flat_map(|x| x.windows(12)).all(|w| SEEN.lock().unwrap().insert(w.to_vec())), "{n} random bytes repeat themselves or what another thread was given");
        c.ops(64);
        c.op(|| format!("{n} bytes"));
        c.state(&n);
        Ok(())
    });
}

fn keys() -> Vec<SecretKey> {
    let mut n1 = oracle::N;
    n1[31] -= 2;
    let mut one = [0u8; 32];
    one[31] = 1;
    vec![SecretKey::from_slice(&one).unwrap(), SecretKey::from_slice(&n1).unwrap(), SecretKey::from_slice(&oracle::sha256(b"a")).unwrap(), SecretKey::from_slice(&oracle::sha256(b"b")).unwrap(), SecretKey::from_slice(&oracle::sha256(b"a")).unwrap().negate()]
}
fn msgs() -> Vec<[u8; 32]> {
    vec![[0; 32], [255; 32], [0x7f; 32], oracle::sha256(b"m"), oracle::sha256(b"n"), { let mut x = [0; 32]; x[31] = 1; x }, { let mut x = [0; 32]; x[0] = 1; x }]
}

pub fn signatures(run: &mut Run) {
    explore(run, "who signed what", |c: &mut Ch| {
        let (k, m) = (c.pick(5), c.pick(7));
        let (sk, msg) = (keys()[k], msgs()[m]);
        let s = sign(sk, &msg).map_err(|e| e.to_string())?;
        // Twice: having been checked before does not count.
        for (j, o) in keys().iter().enumerate().chain(keys().iter().enumerate()) {
            let pk = PublicKey::from_secret_key_global(o);
            for (i, d) in msgs().iter().enumerate() {
                // For a message of zero, the signatures of a key and of its negation are the same.
                if m == 0 && i == 0 && j != k && [2, 4].contains(&j) && [2, 4].contains(&k) {
                    continue;
                }
                same!(verify(&pk, d, &s).is_ok(), i == m && j == k, "signature of key {k} on message {m}, checked with key {j} and message {i}");
            }
        }
        let pk = PublicKey::from_secret_key_global(&sk);
        // The encodings of a signature lead back to it.
        let a = Signature::from_der(&s.serialize_der()).map_err(|e| e.to_string())?;
        let b = Signature::from_compact(&s.serialize_compact()).map_err(|e| e.to_string())?;
        ensure!(a == s && b == s && verify(&pk, &msg, &a).is_ok(), "re-encoded signature");
        let mut low = s;
        low.normalize_s();
        ensure!(low == s, "the signature is not in canonical form");
        c.ops(70);
        c.op(|| format!("key {k}, message {m}"));
        c.state(&(k, m));
        Ok(())
    });
    // What was signed or checked before does not count.
    explore(run, "one after another", |c: &mut Ch| {
        let secp = witnet_crypto::secp256k1::SECP256K1;
        let (k, m) = (c.pick(5), c.pick(7));
        let (k2, turn) = ((k + 1 + c.pick(4)) % 5, c.flag());
        let msg = msgs()[m];
        let mut l: Vec<(usize, [u8; 32])> = vec![(k, msg)];
        for at in 0..32 {
            let mut d = msg;
            d[at] ^= 0x10;
            // The same beginning, then something else; now one key, now the other.
            l.push((k, d));
            l.push((k2, if turn { d } else { msg }));
            l.push((k, msg));
        }
        let good = |j: usize, d: &[u8; 32], s: &Signature| {
            let pk = PublicKey::from_secret_key_global(&keys()[j]);
            secp.verify_ecdsa(&witnet_crypto::secp256k1::Message::from_slice(d).unwrap(), s, &pk).is_ok()
        };
        let mut before: Option<(usize, [u8; 32], Signature)> = None;
        for (i, (j, d)) in l.iter().enumerate() {
            let s = sign(keys()[*j], d).map_err(|e| e.to_string())?;
            ensure!(good(*j, d, &s), "signature number {i} (key {j}) is not one of what was to be signed");
            let pk = PublicKey::from_secret_key_global(&keys()[*j]);
            same!(verify(&pk, d, &s).is_ok(), true, "signature number {i} (key {j}) verifies");
            if let Some((j0, d0, s0)) = before {
                let pk0 = PublicKey::from_secret_key_global(&keys()[j0]);
                for (what, p, e, t) in [("message of the one before", &pk, &d0, &s), ("signature of the one before", &pk, d, &s0), ("key of the one before", &pk0, d, &s), ("one before", &pk0, &d0, &s0)] {
                    let want = secp.verify_ecdsa(&witnet_crypto::secp256k1::Message::from_slice(e).unwrap(), t, p).is_ok();
                    same!(verify(p, e, t).is_ok(), want, "after number {i} (key {j}), the {what} verifies");
                }
            }
            before = Some((*j, *d, s));
        }
        c.ops(5 * l.len() as u64);
        c.op(|| format!("keys {k} and {k2}, message {m}"));
        c.state(&(k, k2, m, turn));
        Ok(())
    });
    explore(run, "changed signatures", |c: &mut Ch| {
        let (k, m) = (c.pick(5), c.pick(7));
        let (sk, msg) = (keys()[k], msgs()[m]);
        let pk = PublicKey::from_secret_key_global(&sk);
        let s = sign(sk, &msg).map_err(|e| e.to_string())?.serialize_compact();
        let mut n = 0;
        for bit in 0..512 {
            let mut t = s;
            t[bit / 8] ^= 1 << (bit % 8);
            if let Ok(t) = Signature::from_compact(&t) {
                n += 1;
                ensure!(verify(&pk, &msg, &t).is_err(), "signature with bit {bit} flipped verifies");
            }
        }
        // The other signature the algebra allows, and degenerate ones.
        let neg = |x: &[u8]| SecretKey::from_slice(x).unwrap().negate().secret_bytes();
        let (r, v) = (&s[..32], &s[32..]);
        let zero = [0u8; 32];
        for (what, a, b) in [("s negated", r, &neg(v)[..]), ("r negated", &neg(r)[..], v), ("both negated", &neg(r)[..], &neg(v)[..]), ("swapped", v, r), ("no r", &zero[..], v), ("no s", r, &zero[..]), ("nothing", &zero[..], &zero[..]), ("s twice", v, v), ("r twice", r, r)] {
            if let Ok(t) = Signature::from_compact(&[a, b].concat()) {
                n += 1;
                ensure!(verify(&pk, &msg, &t).is_err(), "signature with {what} verifies");
            }
        }
        for bit in 0..256 {
            let mut d = msg;
            d[bit / 8] ^= 1 << (bit % 8);
            ensure!(verify(&pk, &d, &Signature::from_compact(&s).unwrap()).is_err(), "signature verifies for a message with bit {bit} flipped");
        }
        c.ops(n + 256);
        c.op(|| format!("key {k}, message {m}"));
        c.state(&(k, m));
        Ok(())
    });
    explore(run, "message sizes", |c: &mut Ch| {
        let n = c.of(&(0..130).chain([255, 256, 512, 1024, 4096]).collect::<Vec<usize>>());
        let d = bytes(n, 1);
        let sk = keys()[2];
        let pk = PublicKey::from_secret_key_global(&sk);
        let r = guard(|| sign(sk, &d))?;
        same!(r.is_ok(), n == 32, "signing {n} bytes");
        let s = sign(sk, &msgs()[3]).map_err(|e| e.to_string())?;
        let v = guard(|| verify(&pk, &d, &s))?;
        ensure!(v.is_err(), "a signature of something else verifies for {n} bytes");
        if n != 32 {
            // Nor does a longer or shorter form of the signed digest.
            let mut e = msgs()[3].to_vec();
            e.resize(n, 0);
            ensure!(guard(|| verify(&pk, &e, &s))?.is_err(), "{n} bytes accepted as a digest");
            ensure!(guard(|| sign(sk, &e))?.is_err(), "{n} bytes signed as a digest");
            // With something before it, or nothing of its beginning.
            let e: Vec<u8> = if n > 32 { [&bytes(n - 32, 0)[..], &msgs()[3]].concat() } else { msgs()[3][32 - n..].to_vec() };
            ensure!(guard(|| verify(&pk, &e, &s))?.is_err(), "{n} bytes ending like the digest accepted");
            // The digest of it, or of something of the same beginning, is not it either.
            let t = sign(sk, &oracle::sha256(&d)).map_err(|e| e.to_string())?;
            ensure!(guard(|| verify(&pk, &d, &t))?.is_err(), "{n} bytes accepted in place of their digest");
            let mut z = [0; 32];
            let k = n.min(32);
            z[..k].copy_from_slice(&d[..k]);
            let t = sign(sk, &z).map_err(|e| e.to_string())?;
            ensure!(guard(|| verify(&pk, &d, &t))?.is_err(), "{n} bytes cut or filled up to a digest");
        }
        c.op(|| format!("{n} bytes"));
        c.state(&n);
        c.outcome(if n == 32 { "signed" } else { "refused" });
        Ok(())
    });
}

pub fn hashes(run: &mut Run) {
    let max = run.pick(600, 5000);
    explore(run, "every length", move |c: &mut Ch| {
        let n = c.pick(max);
        let fill = c.pick(3);
        let d = match fill {
            0 => vec![0; n],
            1 => vec![0x80; n],
            _ => bytes(n, 1),
        };
        let want = oracle::sha256_plain(&d);
        same!(oracle::sha256(&d), want, "the two oracles");
        same!(calculate_sha256(&d), Sha256(want), "hash of {n} bytes");
        same!(format!("{:?}", Sha256(want)), hex::encode(want), "hash as text");
        c.op(|| format!("{n} bytes"));
        c.state(&(n, fill));
        Ok(())
    });
    // Around every power of two.
    let top = run.pick(24u32, 27);
    explore(run, "long inputs", move |c: &mut Ch| {
        let k = 9 + c.pick((top - 8) as usize) as u32;
        let n = (1usize << k) + c.of(&[0usize, 1, 63, 64]) - c.of(&[0usize, 1, 2]);
        let mut d = bytes(n, 5);
        // The length alone decides nothing: the last byte is part of the input.
        let last = c.pick(2) as u8;
        *d.last_mut().unwrap() = last;
        let want = if k < 14 { oracle::sha256_plain(&d) } else { oracle::sha256(&d) };
        same!(calculate_sha256(&d), Sha256(want), "hash of {n} bytes");
        c.op(|| format!("{n} bytes"));
        c.state(&(n, last));
        Ok(())
    });
    // What was hashed before does not count; every byte does.
    explore(run, "one after another", |c: &mut Ch| {
        let n = c.of(&[1usize, 2, 31, 32, 33, 55, 56, 63, 64, 65, 96, 127, 128, 129, 200, 256, 300, 513, 1000, 4096]);
        let base = c.of(&[0u8, 0x80, 0xff]);
        let d0 = vec![base; n];
        let w0 = oracle::sha256(&d0);
        for at in 0..n {
            let mut d = d0.clone();
            d[at] ^= 1;
            same!(calculate_sha256(&d0), Sha256(w0), "hash of {n} bytes");
            same!(calculate_sha256(&d), Sha256(oracle::sha256(&d)), "hash of the same {n} bytes but for byte {at}");
            if at + 1 < n {
                d.swap(at, at + 1);
                same!(calculate_sha256(&d), Sha256(oracle::sha256(&d)), "hash of the same {n} bytes but for byte {}", at + 1);
            }
        }
        c.ops(3 * n as u64);
        c.op(|| format!("{n} bytes"));
        c.state(&(n, base));
        Ok(())
    });
    explore(run, "every short input", |c: &mut Ch| {
        let a = c.pick(257);
        let mut n = 0;
        if a == 256 {
            same!(calculate_sha256(&[]), EMPTY_SHA256, "hash of nothing");
            same!(EMPTY_SHA256.0, oracle::sha256_plain(&[]), "hash of nothing");
        } else {
            same!(calculate_sha256(&[a as u8]).0, oracle::sha256(&[a as u8]), "hash of one byte");
            for b in 0..256 {
                let d = [a as u8, b as u8];
                same!(calculate_sha256(&d).as_ref(), &oracle::sha256(&d)[..], "hash of two bytes");
                n += 1;
            }
        }
        c.ops(n);
        c.op(|| format!("inputs starting with {a}"));
        c.state(&a);
        Ok(())
    });
}
