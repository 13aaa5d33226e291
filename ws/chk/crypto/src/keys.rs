use crate::oracle;
use mc::{Ch, Run, ensure, explore, guard, same};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen, PK, SK};
use witnet_crypto::mnemonic::{Lang, Length, Mnemonic, MnemonicGenerator};
use witnet_crypto::secp256k1;
use witnet_protected::{Protected, ProtectedString};

type Xprv = ([u8; 32], [u8; 32]);

fn master(hkey: &[u8], seed: &[u8]) -> Xprv {
    let h = oracle::hmac512(hkey, seed);
    (h[..32].try_into().unwrap(), h[32..].try_into().unwrap())
}
fn pubkey(k: &[u8; 32]) -> [u8; 33] {
    secp256k1::PublicKey::from_secret_key_global(&secp256k1::SecretKey::from_slice(k).unwrap()).serialize()
}
/// BIP-32 CKDpriv.
fn child(p: &Xprv, i: u32) -> Xprv {
    let mut d = vec![];
    if i >= 1 << 31 {
        d.push(0);
        d.extend(p.0);
    } else {
        d.extend(pubkey(&p.0));
    }
    d.extend(i.to_be_bytes());
    let h = oracle::hmac512(&p.1, &d);
    (oracle::add_mod(&h[..32], &p.0), h[32..].try_into().unwrap())
}
fn raw(k: &ExtendedSK) -> Xprv {
    (k.secret().as_ref().try_into().unwrap(), k.chain_code().as_ref().try_into().unwrap())
}
fn text(p: &[u32]) -> String {
    p.iter().fold("m".to_string(), |s, i| if *i >= 1 << 31 { format!("{s}/{}'", i - (1 << 31)) } else { format!("{s}/{i}") })
}
fn seed(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(k)).collect()
}

const IDX: &[u32] = &[0, 1, 2, 255, 256, 3 + (1 << 31), 1 << 31, (1 << 31) - 1, (1 << 31) + 1, u32::MAX, 0x0102_0304, 0x8403_0201];

pub fn derivation(run: &mut Run) {
    explore(run, "master keys", |c: &mut Ch| {
        let n = c.of(&[0usize, 1, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66, 128, 256]);
        let k = c.of(&[0u8, 1, 200]);
        let hk: &[u8] = c.of(&[&b""[..], b"Bitcoin seed", b"Witnet seed", &[7; 127], &[7; 128], &[7; 129], &[9; 300]]);
        let s = seed(n, k);
        let default = hk == b"Bitcoin seed";
        let g = MasterKeyGen::new(s.clone());
        let r = match c.pick(if default { 3 } else { 2 }) {
            0 => g.with_key(hk).generate(),
            // The key given last counts.
            1 => g.with_key(b"another key").with_key(b"").with_key(hk).generate(),
            _ => g.generate(),
        };
        c.op(|| format!("seed of {n} bytes, key of {} bytes", hk.len()));
        c.state(&(n, k, hk));
        same!(r.is_ok(), (16..=64).contains(&n), "seed of {n} bytes accepted");
        if let Ok(x) = r {
            let want = master(hk, &s);
            same!(raw(&x), want, "master key");
            let mut cat = want.0.to_vec();
            cat.extend(want.1);
            same!(x.concat().as_ref(), &cat[..], "concatenation");
            same!(SK::from(x.clone())[..], want.0[..], "secret key");
            c.outcome("accepted");
        } else {
            c.outcome("refused");
        }
        Ok(())
    });
    explore(run, "every byte of a seed", |c: &mut Ch| {
        let n = 16 + c.pick(49);
        let base = c.of(&[0u8, 0xff, 0x5a]);
        let s0 = vec![base; n];
        let k0 = raw(&MasterKeyGen::new(s0.clone()).generate().map_err(|e| e.to_string())?);
        for at in 0..n {
            for x in [1u8, 0x80] {
                let mut s = s0.clone();
                s[at] ^= x;
                let k = raw(&MasterKeyGen::new(s.clone()).generate().map_err(|e| e.to_string())?);
                ensure!(k != k0, "seeds of {n} bytes that differ in byte {at} have the same key");
                same!(k, master(b"Bitcoin seed", &s), "master key of a seed of {n} bytes, other in byte {at}");
            }
        }
        c.ops(2 * n as u64);
        c.op(|| format!("{n} bytes"));
        c.state(&(n, base));
        Ok(())
    });
    // What was derived before does not matter, also from a key that looks alike.
    let steps = run.pick(3, 4);
    explore(run, "one key after another", move |c: &mut Ch| {
        for _ in 0..steps {
            let a = oracle::sha256(b"secret");
            let k: [u8; 32] = match c.pick(3) {
                0 => a,
                1 => { let mut b = a; b[31] ^= 1; b }
                _ => secp256k1::SecretKey::from_slice(&a).unwrap().negate().secret_bytes(),
            };
            let mut cc = oracle::sha256(b"chain");
            if c.flag() {
                cc[31] ^= 1;
            }
            let i = c.of(&[7u32, 7 + (1 << 31)]);
            let x = ExtendedSK::new(SK::from_slice(&k).unwrap(), Protected::from(&cc[..]));
            same!(raw(&x.derive(&KeyPath::from(vec![i])).map_err(|e| e.to_string())?), child(&(k, cc), i), "child {i}");
            same!(ExtendedPK::from_secret_key(&x).key.serialize(), pubkey(&k), "public key");
            same!(x.to_slip32(&KeyPath::from(vec![i])).map_err(|e| e.to_string())?, oracle::bech32("xprv", &slip(&[i], &(k, cc))), "exported text");
            c.op(|| format!("{} {} {i}", hex::encode(k), hex::encode(cc)));
        }
        Ok(())
    });
    let depth = run.pick(3, 4);
    let seeds = run.pick(2u8, 3);
    explore(run, "paths", move |c: &mut Ch| {
        let k = c.pick(seeds as usize) as u8;
        let s = seed(32, k);
        let p = c.seq(IDX, depth);
        let m = MasterKeyGen::new(s.clone()).generate().map_err(|e| e.to_string())?;
        // Built index by index, and from a list.
        let built = p.iter().fold(KeyPath::default(), |q, i| if *i >= 1 << 31 { q.hardened(i - (1 << 31)) } else { q.index(*i) });
        let listed = KeyPath::from(p.clone());
        same!(built, listed, "path");
        same!(built.to_string(), text(&p), "path text");
        same!(built.depth(), p.len(), "depth");
        same!(built.is_master(), p.is_empty(), "is master");
        same!(built.iter().map(|i| *i.as_ref()).collect::<Vec<_>>(), p, "indices");
        same!(built.iter().map(|i| i.is_hardened()).collect::<Vec<_>>(), p.iter().map(|i| *i >= 1 << 31).collect::<Vec<_>>(), "hardened");
        let mut want = master(b"Bitcoin seed", &s);
        for i in &p {
            want = child(&want, *i);
        }
        let got = m.derive(&built).map_err(|e| e.to_string())?;
        same!(raw(&got), want, "key at {}", text(&p));
        // In two stages, at every place.
        for cut in 0..=p.len() {
            let a = m.derive(&KeyPath::from(p[..cut].to_vec())).and_then(|x| x.derive(&KeyPath::from(p[cut..].to_vec()))).map_err(|e| e.to_string())?;
            ensure!(a == got, "deriving {} in two stages gives another key", text(&p));
        }
        let mut a = m.clone();
        for i in built.iter() {
            a = a.child(i).map_err(|e| e.to_string())?;
        }
        ensure!(a == got, "child by child gives another key");
        let x = ExtendedPK::from_secret_key(&got);
        same!(x.key.serialize(), pubkey(&want.0), "public key");
        same!(x.chain_code.as_ref(), &want.1[..], "chain code of the public key");
        same!(PK::from(x).serialize(), pubkey(&want.0), "public key");
        c.op(|| text(&p));
        c.ops(p.len() as u64 * 3);
        c.state(&(k, &p));
        c.outcome(&format!("depth {}", p.len()));
        Ok(())
    });
    // Keys and chain codes at the edges of their ranges.
    explore(run, "children of edge keys", |c: &mut Ch| {
        let mut k = match c.pick(8) {
            0 => [0; 32],
            1 => [0xff; 32],
            2 => oracle::N,
            3 => [0x80; 32],
            4 => [0x7f; 32],
            5 => [1; 32],
            6 => [0xfe; 32],
            _ => oracle::sha256(b"k"),
        };
        // Up to four leading bytes of one kind, and the last one.
        let (n, v) = (c.pick(5), c.of(&[0u8, 1, 0xff]));
        k[..n].fill(v);
        let last = c.of(&[None, Some(0u8), Some(1), Some(0x40), Some(0xff)]);
        if let Some(l) = last {
            k[31] = l;
        }
        let cc = c.of(&[[0; 32], [0xff; 32], oracle::sha256(b"c"), { let mut x = oracle::sha256(b"d"); x[0] = 0; x }, { let mut x = oracle::sha256(b"e"); x[..4].fill(0); x[31] = 0; x }]);
        let i = c.of(&[0u32, 1 << 31, u32::MAX, 5]);
        let Ok(sk) = SK::from_slice(&k) else {
            ensure!(k == [0; 32] || k >= oracle::N, "key refused");
            c.outcome("no key");
            return Ok(());
        };
        let x = ExtendedSK::new(sk, Protected::from(&cc[..]));
        let q = KeyPath::from(vec![i, i ^ 1]);
        let y = x.derive(&q).map_err(|e| e.to_string())?;
        same!(raw(&y), child(&child(&(k, cc), i), i ^ 1), "child of {} with chain code {}", hex::encode(k), hex::encode(cc));
        same!(ExtendedPK::from_secret_key(&x).key.serialize(), pubkey(&k), "public key");
        let s = x.to_slip32(&q).map_err(|e| e.to_string())?;
        same!(s, oracle::bech32("xprv", &slip(&[i, i ^ 1], &(k, cc))), "exported text");
        // Another key, chain code or path is another one.
        let (mut k2, mut c2) = (k, cc);
        k2[30] ^= 1;
        c2[n] ^= 0x80;
        ensure!(SK::from_slice(&k2).is_ok_and(|k2| ExtendedSK::new(k2, Protected::from(&cc[..])) != x) || SK::from_slice(&k2).is_err(), "different keys are equal");
        ensure!(ExtendedSK::new(sk, Protected::from(&c2[..])) != x, "keys with different chain codes are equal");
        for b in 0..32 {
            ensure!(KeyPath::from(vec![i, i ^ 1 ^ (1 << b)]) != q && KeyPath::from(vec![i ^ (1 << b), i ^ 1]) != q, "different paths are equal");
        }
        c.op(|| format!("{} {}", hex::encode(k), hex::encode(cc)));
        c.state(&(k, cc, i));
        c.outcome("derived");
        Ok(())
    });
    // Every bit of an index counts, next to every boundary.
    explore(run, "every index", move |c: &mut Ch| {
        let b = c.pick(32) as u32;
        let i = (1u32 << b).wrapping_add(c.of(&[0, 1, u32::MAX])) ^ c.of(&[0u32, 1 << 31, 1 << 30, 3 << 30]);
        let k = c.pick(seeds as usize) as u8;
        let m = MasterKeyGen::new(seed(32, k)).generate().map_err(|e| e.to_string())?;
        let p = KeyPath::from(vec![i]);
        let x = p.iter().next().ok_or("the path is empty")?;
        same!(*x.as_ref(), i, "index");
        same!(x.is_hardened(), i >= 1 << 31, "hardened: {i:#x}");
        same!(p.to_string(), text(&[i]), "path text");
        same!(if i >= 1 << 31 { KeyPath::default().hardened(i - (1 << 31)) } else { KeyPath::default().index(i) }, p, "path");
        same!(raw(&m.child(x).map_err(|e| e.to_string())?), child(&master(b"Bitcoin seed", &seed(32, k)), i), "child {i:#x}");
        c.op(|| format!("child {i:#x}"));
        c.state(&(i, k));
        Ok(())
    });
    let deep: Vec<usize> = run.pick((0..40).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]).collect(), (0..300).chain([511, 512, 513, 1000, 1025]).collect());
    explore(run, "deep paths", move |c: &mut Ch| {
        let d = c.of(&deep);
        let p: Vec<u32> = (0..d as u32).map(|i| if i % 3 == 0 { i } else { i | 1 << 31 }).collect();
        let m = MasterKeyGen::new(seed(64, 9)).generate().map_err(|e| e.to_string())?;
        let mut want = master(b"Bitcoin seed", &seed(64, 9));
        for i in &p {
            want = child(&want, *i);
        }
        same!(raw(&m.derive(&KeyPath::from(p.clone())).map_err(|e| e.to_string())?), want, "key at depth {d}");
        c.op(|| format!("depth {d}"));
        c.state(&d);
        Ok(())
    });
    explore(run, "out of range indices", |c: &mut Ch| {
        let i = c.of(&[0u32, 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX]);
        let fits = i < 1 << 31;
        same!(guard(|| KeyPath::default().index(i)).is_ok(), fits, "index({i})");
        same!(guard(|| KeyPath::default().hardened(i)).is_ok(), fits, "hardened({i})");
        c.op(|| format!("index {i}"));
        c.state(&i);
        Ok(())
    });
}

fn slip(p: &[u32], k: &Xprv) -> Vec<u8> {
    let mut b = vec![p.len() as u8];
    p.iter().for_each(|i| b.extend(i.to_be_bytes()));
    b.extend(k.1);
    b.push(0);
    b.extend(k.0);
    b
}

pub fn slip32(run: &mut Run) {
    let long = run.pick(300, 600);
    explore(run, "round trip at every depth", move |c: &mut Ch| {
        let d = c.pick(long);
        let kind = c.pick(3);
        let p: Vec<u32> = (0..d as u32).map(|i| match kind { 0 => i, 1 => i | 1 << 31, _ => u32::MAX - i.wrapping_mul(0x01010101) }).collect();
        let k = master(b"x", &[d as u8]);
        let x = ExtendedSK::new(SK::from_slice(&k.0).unwrap(), Protected::from(&k.1[..]));
        let r = x.to_slip32(&KeyPath::from(p.clone()));
        c.op(|| format!("depth {d}"));
        c.state(&(d, kind));
        same!(r.is_ok(), d <= 255, "export at depth {d}");
        if let Ok(s) = r {
            same!(s, oracle::bech32("xprv", &slip(&p, &k)), "exported text");
            let (y, q) = ExtendedSK::from_slip32(&s).map_err(|e| format!("exported key not accepted back: {e}"))?;
            ensure!(y == x, "imported key differs");
            same!(q, KeyPath::from(p), "imported path");
            c.outcome("exported");
        } else {
            c.outcome("too deep");
        }
        Ok(())
    });
    explore(run, "round trip of small paths", |c: &mut Ch| {
        let p = c.seq(IDX, 2);
        let k = match c.pick(5) {
            0 => master(b"k", b"0"),
            1 => ([1; 32], [0; 32]),
            2 => {
                let mut one = [0; 32];
                one[31] = 1;
                (one, [255; 32])
            }
            3 => {
                let mut n = oracle::N;
                n[31] -= 1;
                (n, [0x80; 32])
            }
            _ => ([0x7f; 32], master(b"k", b"1").1),
        };
        let x = ExtendedSK::new(SK::from_slice(&k.0).unwrap(), Protected::from(&k.1[..]));
        let s = x.to_slip32(&KeyPath::from(p.clone())).map_err(|e| e.to_string())?;
        same!(s, oracle::bech32("xprv", &slip(&p, &k)), "exported text");
        let (y, q) = ExtendedSK::from_slip32(&s).map_err(|e| e.to_string())?;
        ensure!(y == x && q == KeyPath::from(p.clone()), "imported key or path differs");
        // Stored as the wallet stores it.
        let z: ExtendedSK = bincode::deserialize(&bincode::serialize(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(z == x, "stored key differs");
        let z: ExtendedSK = serde_json::from_str(&serde_json::to_string(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(z == x, "key stored as JSON differs");
        let pk = ExtendedPK::from_secret_key(&x);
        let z: ExtendedPK = bincode::deserialize(&bincode::serialize(&pk).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(z == pk, "stored public key differs");
        let kp = KeyPath::from(p.clone());
        let z: KeyPath = bincode::deserialize(&bincode::serialize(&kp).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(z == kp, "stored path differs");
        c.op(|| text(&p));
        c.state(&(&p, k));
        Ok(())
    });
    // Imports: every single mutation of the bytes, with a valid checksum; accepted exactly when well formed.
    explore(run, "mutated payloads", |c: &mut Ch| {
        let d = c.of(&[0usize, 1, 2, 5, 127, 128, 254, 255]);
        let p: Vec<u32> = (0..d as u32).map(|i| i | 1 << 31).collect();
        let k = master(b"mut", b"0");
        let mut b = slip(&p, &k);
        let what = c.pick(6);
        match what {
            0 => {
                let near: Vec<usize> = (0..b.len()).filter(|i| *i < 30 || i + 70 > b.len()).collect();
                let at = c.of(&near);
                b[at] = c.of(&[0u8, 1, 2, 127, 128, 254, 255]);
            }
            1 => {
                let n = c.pick(b.len());
                b.truncate(n);
            }
            2 => {
                let n = c.pick(9) + 1;
                b.extend(vec![c.of(&[0u8, 1]); n]);
            }
            3 => {
                let n = b.len();
                b[n - 32..].copy_from_slice(&[0; 32]);
            }
            4 => {
                let n = b.len();
                let mut v = oracle::N;
                v[31] = v[31] - 1 + c.pick(3) as u8;
                b[n - 32..].copy_from_slice(&v);
            }
            _ => {
                let at = c.pick(b.len());
                b.remove(at);
            }
        }
        let hrp = c.of(&["xprv", "xpub", "xprw", "wit", "xprvv", "xprv1", "xpr", "x", "axprv", "tprv", "xprv-test"]);
        let s = oracle::bech32(hrp, &b);
        // What the standard says about it.
        let ok = hrp == "xprv" && !b.is_empty() && b.len() == 66 + 4 * b[0] as usize && {
            let n = b.len();
            b[n - 33] == 0 && b[n - 32..] != [0; 32] && b[n - 32..] < oracle::N[..]
        };
        c.op(|| format!("{hrp} {}", hex::encode(&b)));
        c.state(&s);
        let r = guard(|| ExtendedSK::from_slip32(&s))?;
        same!(r.is_ok(), ok, "import accepted");
        if let Ok((x, q)) = r {
            let n = b.len();
            same!(raw(&x), (b[n - 32..].try_into().unwrap(), b[n - 65..n - 33].try_into().unwrap()), "imported key");
            same!(q.iter().flat_map(|i| i.as_ref().to_be_bytes()).collect::<Vec<_>>(), b[1..n - 65].to_vec(), "imported path");
            c.outcome("accepted");
        } else {
            c.outcome("refused");
        }
        Ok(())
    });
    explore(run, "mutated text", |c: &mut Ch| {
        let d = c.of(&[0usize, 2]);
        let p: Vec<u32> = (0..d as u32).collect();
        let k = master(b"mut", b"1");
        let s = oracle::bech32("xprv", &slip(&p, &k));
        let at = c.pick(s.len());
        let t = match c.pick(5) {
            4 => {
                // Something before, in between or after it.
                let x = c.of(&["\n", " ", "\t", "\r", "\0", "q", "\u{feff}", "\u{200b}", "1", "/"]);
                match c.pick(3) {
                    0 => format!("{s}{x}"),
                    1 => format!("{x}{s}"),
                    _ => format!("{}{x}{}", &s[..at], &s[at..]),
                }
            }
            0 => {
                let ch = oracle::bech32_chars()[c.pick(32)] as char;
                format!("{}{ch}{}", &s[..at], &s[at + 1..])
            }
            1 => s[..at].to_string(),
            2 => format!("{}{}", &s[..at], &s[at + 1..]),
            _ => format!("{}{}{}", &s[..at], c.of(&["b", "1", "Q", " ", "é", "\0"]), &s[at + 1..]),
        };
        c.op(|| t.clone());
        c.state(&t);
        let r = guard(|| ExtendedSK::from_slip32(&t))?;
        ensure!(t == s || r.is_err(), "a damaged export is accepted: {t}");
        ensure!(t != s || r.is_ok(), "the export itself is refused");
        c.outcome(if t == s { "unchanged" } else { "refused" });
        Ok(())
    });
}

fn word(i: u16) -> &'static str {
    bip39::Language::English.wordlist().get_word(i.into())
}
/// BIP-39: the phrase of an entropy.
fn phrase(e: &[u8]) -> String {
    let cs = e.len() / 4;
    let mut bits: Vec<bool> = e.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
    let h = oracle::sha256(e)[0];
    bits.extend((0..cs).map(|i| h >> (7 - i) & 1 == 1));
    bits.chunks(11).map(|c| word(c.iter().fold(0, |a, b| a << 1 | *b as u16))).collect::<Vec<_>>().join(" ")
}
fn entropy_of(p: &str) -> Option<Vec<u8>> {
    let list: Vec<u16> = p.split(' ').map(|w| (0..2048u16).find(|i| word(*i) == w)).collect::<Option<_>>()?;
    let bits: Vec<bool> = list.iter().flat_map(|w| (0..11).rev().map(move |i| w >> i & 1 == 1)).collect();
    if ![12, 15, 18, 21, 24].contains(&list.len()) {
        return None;
    }
    let n = bits.len() * 32 / 33;
    let e: Vec<u8> = bits[..n].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
    (phrase(&e) == p).then_some(e)
}
static LONGER: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| (0..3000).map(|i| (b'!' + (i % 90) as u8) as char).collect());
const LONG: &str = "a much longer passphrase than one block of the hash function would take, on purpose, so that it is hashed first; it goes on and on";
fn lengths() -> [(Length, usize); 5] {
    [(Length::Words12, 16), (Length::Words15, 20), (Length::Words18, 24), (Length::Words21, 28), (Length::Words24, 32)]
}

/// Some of what is random, if that is what this process was started for.
pub fn print_random() -> bool {
    let Ok(name) = std::env::var("MC_PRINT_RANDOM") else { return false };
    for n in 0..10 {
        let l = lengths().into_iter().nth(n % 5).unwrap().0;
        println!("{}", hex::encode(if name.starts_with("phrases") { entropy_of(Mnemonic::build().with_len(l).generate().words()).unwrap_or_default() } else { witnet_crypto::cipher::generate_random(16 + 8 * n).unwrap_or_default() }));
    }
    true
}
/// What is random must be so in every process anew: this program, started several times over, prints some of it.
pub fn other_runs(run: &mut Run, name: &str) {
    explore(run, name, |c: &mut Ch| {
        let n = 2 + c.pick(3);
        let mut seen = std::collections::HashSet::new();
        for i in 0..n {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).env("MC_PRINT_RANDOM", name).output().map_err(|e| e.to_string())?;
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let l: Vec<Vec<u8>> = t.lines().filter_map(|l| hex::decode(l).ok()).filter(|l| !l.is_empty()).collect();
            same!(l.len(), 10, "answers of run {i}");
            for x in l {
                ensure!(x.windows(8).all(|w| seen.insert(w.to_vec())), "run {i} gives the random bytes of another run");
            }
        }
        c.op(|| format!("{n} runs"));
        c.state(&n);
        Ok(())
    });
}

pub fn mnemonic(run: &mut Run) {
    explore(run, "phrases and seeds", |c: &mut Ch| {
        let n = c.of(&[16usize, 20, 24, 28, 32]);
        let kind = c.pick(6);
        let e: Vec<u8> = match kind {
            0 => vec![0; n],
            1 => vec![255; n],
            2 => vec![0x7f; n],
            3 => vec![0x80; n],
            k => seed(n, k as u8 * 31),
        };
        // The passphrase, and its normal form (NFKD).
        let (pass, norm) = c.of(&[("", ""), (" ", " "), ("TREZOR", "TREZOR"), (" a b  ", " a b  "), ("\ta\n", "\ta\n"), ("a\0b", "a\0b"), ("\0", "\0"), ("\u{e9}\u{fb01}", "e\u{301}fi"), ("\u{feff}x", "\u{feff}x"), ("\u{10ffff}", "\u{10ffff}"), ("mnemonic", "mnemonic"), (LONG, LONG), (&*LONGER, &*LONGER)]);
        let p = phrase(&e);
        let want = oracle::pbkdf2(|k, d| oracle::hmac512(k, d), p.as_bytes(), format!("mnemonic{norm}").as_bytes(), 2048);
        let m = Mnemonic::from_phrase(ProtectedString::new(p.clone())).map_err(|e| e.to_string())?;
        let m2 = Mnemonic::from_phrase_ref(&p).map_err(|e| e.to_string())?;
        same!(m.words(), &p[..], "words");
        same!(m2.words(), &p[..], "words");
        same!(m.seed(&pass.into()).as_bytes(), &want[..], "seed with passphrase {pass:?}");
        same!(m2.seed_ref(pass).as_ref(), &want[..], "seed with passphrase {pass:?}");
        c.op(|| format!("{p} / {pass:?}"));
        c.state(&(n, kind, pass));
        Ok(())
    });
    // Whatever seed was asked before, every word and every byte of the passphrase counts.
    explore(run, "one seed after another", |c: &mut Ch| {
        let n = c.of(&[16usize, 20, 24, 28, 32]);
        let k = c.of(&[1usize, 2, 6, 20]);
        let at = c.pick(k + 2);
        let mut l = vec![(seed(n, 9), "p".repeat(k))];
        if at < k {
            let mut q = "p".repeat(k).into_bytes();
            q[at] = b'q';
            l.push((seed(n, 9), String::from_utf8(q).unwrap()));
        } else {
            let mut e = seed(n, 9);
            e[if at == k { 0 } else { n - 1 }] ^= 1;
            l.push((e, "p".repeat(k)));
        }
        l.push((seed(n, 9), "p".repeat(k + 1)));
        l.push(l[0].clone());
        for (i, (e, pass)) in l.iter().enumerate() {
            let p = phrase(e);
            let want = oracle::pbkdf2(|k, d| oracle::hmac512(k, d), p.as_bytes(), format!("mnemonic{pass}").as_bytes(), 2048);
            let m = Mnemonic::from_phrase_ref(&p).map_err(|e| e.to_string())?;
            same!(m.words(), &p[..], "words of number {i}");
            same!(m.seed_ref(&pass).as_ref(), &want[..], "seed number {i}, passphrase {pass:?}");
        }
        // Two at a time.
        let m: Vec<Mnemonic> = l.iter().map(|(e, _)| Mnemonic::from_phrase(ProtectedString::new(phrase(e))).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        for (i, (e, pass)) in l.iter().enumerate().take(2) {
            let want = oracle::pbkdf2(|k, d| oracle::hmac512(k, d), phrase(e).as_bytes(), format!("mnemonic{pass}").as_bytes(), 2048);
            same!(m[i].seed(&pass.clone().into()).as_bytes(), &want[..], "seed number {i}, passphrase {pass:?}, of two");
        }
        c.ops(6);
        c.op(|| format!("{n} bytes, passphrase of {k}, {at}"));
        c.state(&(n, k, at));
        Ok(())
    });
    explore(run, "generated phrases", |c: &mut Ch| {
        let which = c.pick(6);
        let mut es: Vec<Vec<u8>> = vec![];
        let n = if which == 5 { 16 } else { lengths()[which].1 };
        for i in 0..40 {
            let g = if which == 5 { MnemonicGenerator::new() } else if i % 2 == 0 { Mnemonic::build() } else { MnemonicGenerator::default().with_len(lengths().into_iter().nth(i % 5).unwrap().0) };
            let g = if i % 3 == 0 { g.with_lang(Lang::English) } else { g };
            let g = if which == 5 { g } else { g.with_len(lengths().into_iter().nth(which).unwrap().0) };
            let m = g.generate();
            let e = entropy_of(m.words()).ok_or_else(|| format!("generated phrase is not valid: {}", m.words()))?;
            same!(e.len(), n, "entropy bytes");
            ensure!(Mnemonic::from_phrase_ref(m.words()).is_ok(), "generated phrase is not accepted back");
            es.push(e);
        }
        // Every bit of the entropy varies (a constant bit has probability 2^-39 per bit otherwise).
        for i in 0..n * 8 {
            let b = |e: &Vec<u8>| e[i / 8] >> (i % 8) & 1;
            ensure!(es.iter().any(|e| b(e) != b(&es[0])), "bit {i} of the entropy never varies");
        }
        // No eight bytes come twice, neither in one phrase nor in two, whoever asked for them.
        static SEEN: std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
        ensure!(es.iter().flat_map(|x| x.windows(8)).all(|w| SEEN.lock().unwrap().insert(w.to_vec())), "the entropy of phrases from {n} bytes repeats itself");
        c.ops(40);
        c.op(|| format!("{n} bytes of entropy"));
        c.state(&which);
        Ok(())
    });
    other_runs(run, "phrases of other runs");
    let step = run.pick(8usize, 1);
    explore(run, "phrases with one other word", move |c: &mut Ch| {
        let n = c.of(&[16usize, 24, 32]);
        let p = phrase(&seed(n, 77));
        let ws: Vec<&str> = p.split(' ').collect();
        let at = c.pick(ws.len());
        let mut ok = 0;
        for i in (0..2048u16).step_by(step) {
            let mut v = ws.clone();
            v[at] = word(i);
            let q = v.join(" ");
            let want = entropy_of_fast(&v, &ws, at, i, n);
            let r = Mnemonic::from_phrase_ref(&q);
            same!(r.is_ok(), want, "phrase accepted: {q}");
            ok += want as u64;
        }
        c.ops(2048 / step as u64);
        c.op(|| format!("word {at} of {}: {ok} of {} accepted", ws.len(), 2048 / step));
        c.state(&(n, at));
        Ok(())
    });
    explore(run, "almost words", |c: &mut Ch| {
        let n = c.of(&[16usize, 20, 24, 28, 32]);
        let p = phrase(&seed(n, 5));
        let mut ws: Vec<String> = p.split(' ').map(|s| s.to_string()).collect();
        let mut sep = " ";
        let what = c.pick(5);
        let k = c.pick(ws.len());
        match what {
            0 => {
                let x = c.of(&[",", ".", ";", "s", "es", "-", "_", "'", "\"", "0", "1", "\u{301}", "\u{200b}", "\u{feff}", "\0"]);
                ws[k] = if c.flag() { format!("{}{x}", ws[k]) } else { format!("{x}{}", ws[k]) };
            }
            1 => ws[k] = ws[k].to_uppercase(),
            2 => ws[k].truncate(c.of(&[1, 2, 3, 4])),
            3 => {
                let l = ws[k].chars().rev().collect();
                ws[k] = c.of(&[&l, &format!("{}{}", ws[k], ws[k]), &ws[k][..1].to_uppercase(), &ws[k].replace('e', "é")]).to_string();
            }
            _ => sep = c.of(&[",", ", ", "-", "_", ";", "", "."]),
        }
        let q = ws.join(sep);
        let want = entropy_of(&q).is_some();
        for r in [guard(|| Mnemonic::from_phrase_ref(&q))?, guard(|| Mnemonic::from_phrase(ProtectedString::new(q.clone())))?] {
            same!(r.is_ok(), want, "phrase accepted: {q:?}");
        }
        c.outcome(if want { "valid" } else { "invalid" });
        c.op(|| q.clone());
        c.state(&q);
        Ok(())
    });
    explore(run, "malformed phrases", |c: &mut Ch| {
        let n = c.of(&[16usize, 20, 24, 28, 32]);
        let p = phrase(&seed(n, 5));
        let mut ws: Vec<String> = p.split(' ').map(|s| s.to_string()).collect();
        match c.pick(4) {
            0 => {
                let k = c.pick(ws.len());
                ws.truncate(k);
            }
            1 => ws.push("abandon".into()),
            2 => {
                let k = c.pick(ws.len());
                ws[k] = c.of(&["", "zzzz", "Abandonn", "é"]).into();
            }
            _ => {
                let k = c.pick(ws.len() - 1);
                ws.swap(k, k + 1);
            }
        }
        let q = ws.join(" ");
        let r = guard(|| Mnemonic::from_phrase_ref(&q))?;
        let want = entropy_of(&q).is_some();
        // Extra white space is a matter of taste; an actual word error is not.
        if !q.contains("  ") && !q.starts_with(' ') && !q.ends_with(' ') {
            same!(r.is_ok(), want, "phrase accepted: {q:?}");
            same!(Mnemonic::from_phrase(ProtectedString::new(q.clone())).is_ok(), want, "phrase accepted: {q:?}");
        }
        c.outcome(if want { "valid" } else { "invalid" });
        c.op(|| q.clone());
        c.state(&q);
        Ok(())
    });
}
/// Whether replacing word `at` of a valid phrase by `i` gives a valid phrase.
fn entropy_of_fast(v: &[&str], _ws: &[&str], _at: usize, _i: u16, n: usize) -> bool {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static MAP: OnceLock<HashMap<&'static str, u16>> = OnceLock::new();
    let m = MAP.get_or_init(|| (0..2048u16).map(|i| (word(i), i)).collect());
    let bits: Vec<bool> = v.iter().flat_map(|w| { let x = m[w]; (0..11).rev().map(move |i| x >> i & 1 == 1) }).collect();
    let e: Vec<u8> = bits[..n * 8].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
    let h = oracle::sha256(&e)[0];
    (0..n / 4).all(|i| bits[n * 8 + i] == (h >> (7 - i) & 1 == 1))
}
