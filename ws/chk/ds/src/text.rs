//! C47: what is written of hashes, addresses, pointers, signatures and requests is read back.
use mc::{Ch, Run, ensure, explore, guard, same};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use witnet_crypto::secp256k1::{self, Message, SECP256K1, Secp256k1, ecdsa};
use witnet_data_structures::chain::*;
use witnet_data_structures::serialization_helpers::number_from_string;
use witnet_data_structures::transaction::VTTransaction;
use witnet_data_structures::utxo_pool::UtxoSelectionStrategy;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn byte32(c: &mut Ch) -> [u8; 32] {
    let fill = c.of(&[0u8, 0xff, 0x5a]);
    let at = c.pick(32);
    let mut b = [fill; 32];
    b[at] = c.pick(256) as u8;
    b
}

/// A text of hexadecimal digits, perhaps not: what was written and what it means.
fn digits(c: &mut Ch, bytes: &[u8]) -> (String, Option<Vec<u8>>) {
    let good = hex(bytes);
    match c.pick(9) {
        0 => (good, Some(bytes.to_vec())),
        1 => (good.to_uppercase(), Some(bytes.to_vec())),
        2 => (format!("0x{good}"), None),
        3 => (good[1..].into(), None),
        4 => (good[2..].into(), None),
        5 => (format!("{good}00"), None),
        6 => (format!("{good}0"), None),
        7 => (String::new(), None),
        _ => {
            let junk = c.of(&['g', 'G', ' ', '-', '/', ':', '@', '`', '\0', 'é']);
            let at = c.of(&[0, 1, good.len() / 2, good.len() - 1]);
            let mut s: Vec<char> = good.chars().collect();
            s[at] = junk;
            (s.into_iter().collect(), None)
        }
    }
}

/// Long division of big endian bytes.
fn divide(b: &[u8; 32], n: u64) -> ([u8; 32], u64) {
    let mut q = [0; 32];
    let mut r: u128 = 0;
    for i in 0..32 {
        r = (r << 8) | u128::from(b[i]);
        q[i] = (r / u128::from(n)) as u8;
        r %= u128::from(n);
    }
    (q, r as u64)
}

fn hashes(run: &mut Run) {
    explore(run, "hashes", |c: &mut Ch| {
        let b = byte32(c);
        let h = Hash::SHA256(b);
        same!(h.to_string(), hex(&b), "the text of a hash");
        same!(format!("{h:?}"), hex(&b), "the text of a hash");
        same!(serde_json::to_string(&h).ok(), Some(format!("\"{}\"", hex(&b))), "a hash in JSON");
        same!(bincode::deserialize::<Hash>(&bincode::serialize(&h).unwrap()).ok(), Some(h), "a hash in binary");
        same!(bincode::serialize(&h).unwrap()[4..].to_vec(), b.to_vec(), "a hash in binary");
        same!((h.data(), Hash::from(b.to_vec())), (b, h), "the bytes of a hash");
        let (text, want) = digits(c, &b);
        c.op(|| format!("{text:?}"));
        let want = want.map(|_| h);
        same!(guard(|| text.parse::<Hash>().ok())?, want, "the hash {text:?}");
        same!(serde_json::from_value::<Hash>(text.clone().into()).ok(), want, "the hash {text:?} out of JSON");
        c.outcome(if want.is_some() { "read" } else { "refused" });
        Ok(())
    });
    explore(run, "division of hashes", |c: &mut Ch| {
        let b = byte32(c);
        let h = Hash::SHA256(b);
        for n in [1u64, 2, 3, 7, 10, 255, 256, 257, 1000, 65_537, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX] {
            let (q, r) = divide(&b, n);
            same!(h.div_mod(n), (Hash::SHA256(q), r), "{} by {n}", hex(&b));
        }
        c.ops(16);
        let first = u32::from_be_bytes(b[..4].try_into().unwrap());
        let mut want = [0xff; 32];
        want[..4].copy_from_slice(&b[..4]);
        same!(Hash::with_first_u32(first), Hash::SHA256(want), "a hash of {first}");
        let mut o = b;
        let at = c.of(&[0usize, 1, 15, 31]);
        o[at] = o[at].wrapping_add(c.of(&[0u8, 1, 128]));
        same!(h.cmp(&Hash::SHA256(o)), b.cmp(&o), "the order of hashes");
        ensure!(Hash::min() <= h && h <= Hash::max(), "{h} is out of bounds");
        Ok(())
    });
}

const ENVS: [Environment; 3] = [Environment::Mainnet, Environment::Testnet, Environment::Development];
const CHARSET: &str = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

/// The address of some bytes, after BIP-173.
fn bech(prefix: &str, data: &[u8]) -> String {
    let mut values: Vec<u8> = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = ((acc << 8) | u32::from(*b)) & 0xffff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            values.push(((acc >> bits) & 31) as u8);
        }
    }
    if bits > 0 {
        values.push(((acc << (5 - bits)) & 31) as u8);
    }
    let mut all: Vec<u8> = prefix.bytes().map(|b| b >> 5).collect();
    all.push(0);
    all.extend(prefix.bytes().map(|b| b & 31));
    all.extend(&values);
    all.extend([0; 6]);
    let mut chk = 1u32;
    for v in all {
        let top = chk >> 25;
        chk = ((chk & 0x1ff_ffff) << 5) ^ u32::from(v);
        for (i, g) in [0x3b6a_57b2u32, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3].iter().enumerate() {
            if (top >> i) & 1 == 1 {
                chk ^= g;
            }
        }
    }
    chk ^= 1;
    for i in 0..6 {
        values.push(((chk >> (5 * (5 - i))) & 31) as u8);
    }
    let set: Vec<char> = CHARSET.chars().collect();
    format!("{prefix}1{}", values.iter().map(|v| set[*v as usize]).collect::<String>())
}

fn prefix(e: Environment) -> &'static str {
    if e == Environment::Mainnet { "wit" } else { "twit" }
}

fn addresses(run: &mut Run) {
    explore(run, "addresses", |c: &mut Ch| {
        let mut b = [0u8; 20];
        b.copy_from_slice(&{
            let fill = c.of(&[0u8, 0x5a]);
            let at = c.pick(20);
            let mut b = [fill; 20];
            b[at] = c.pick(256) as u8;
            b
        });
        let p = PublicKeyHash::from_bytes(&b).map_err(|e| e.to_string())?;
        same!(p.as_ref(), &b[..], "the bytes of an address");
        let env = c.of(&ENVS);
        let text = p.bech32(env);
        same!(text, bech(prefix(env), &b), "the address of {}", hex(&b));
        for other in ENVS {
            let read = PublicKeyHash::from_bech32(other, &text);
            if prefix(other) == prefix(env) {
                same!(read.ok(), Some(p), "{text} in {other}");
            } else {
                match read {
                    Err(PublicKeyHashParseError::WrongEnvironment { prefix: found, expected_environment }) => {
                        same!((found.as_str(), expected_environment), (prefix(env), other), "the prefix found in {text}, and where")
                    }
                    x => return Err(format!("{text} of {env} read in {other}: {x:?}")),
                }
            }
        }
        same!(PublicKeyHash::from_bech32(env, &text.to_uppercase()).ok(), Some(p), "{text} in capitals");
        // without an environment set, mainnet
        if env == Environment::Mainnet {
            same!(p.to_string(), text, "the text of an address");
            same!(text.parse::<PublicKeyHash>().ok(), Some(p), "the address {text}");
            same!(serde_json::to_string(&p).ok(), Some(format!("\"{text}\"")), "an address in JSON");
            same!(serde_json::from_str::<PublicKeyHash>(&format!("\"{text}\"")).ok(), Some(p), "{text} out of JSON");
        }
        same!(bincode::serialize(&p).unwrap(), b.to_vec(), "an address in binary");
        same!(bincode::deserialize::<PublicKeyHash>(&b).ok(), Some(p), "an address out of binary");
        let mut m = [0u8; 32];
        m[..20].copy_from_slice(&b);
        same!(p.as_secp256k1_msg(), m, "the message of an address");
        same!(p.to_hex(), hex(&b), "an address in hexadecimal");
        let (h, want) = digits(c, &b);
        c.op(|| format!("{text} {h:?}"));
        same!(PublicKeyHash::from_hex(&h).ok(), want.map(|_| p), "the address {h:?} in hexadecimal");
        Ok(())
    });
    explore(run, "damaged addresses", |c: &mut Ch| {
        let b: Vec<u8> = (0..20u8).map(|i| i.wrapping_mul(37) ^ (i / 3)).collect();
        let env = c.of(&ENVS);
        let good = PublicKeyHash::from_bytes(&b).unwrap().bech32(env);
        let chars: Vec<char> = good.chars().collect();
        let set: Vec<char> = CHARSET.chars().chain("bio1BIO ABQ-\0é".chars()).collect();
        let mut bad = chars.clone();
        match c.pick(6) {
            0 => {
                // any one character
                let at = c.pick(chars.len());
                bad[at] = c.of(&set);
            }
            1 => {
                // any two characters next to each other
                let at = c.pick(chars.len() - 1);
                bad[at] = c.of(&set);
                bad[at + 1] = c.of(&set);
            }
            2 => bad.truncate(c.pick(chars.len())),
            3 => bad.insert(c.pick(chars.len()), c.of(&set)),
            4 => {
                bad.remove(c.pick(chars.len()));
            }
            _ => {
                let (i, j) = (c.pick(chars.len()), c.pick(chars.len()));
                bad.swap(i, j);
            }
        }
        let bad: String = bad.into_iter().collect();
        c.op(|| bad.clone());
        let read = guard(|| PublicKeyHash::from_bech32(env, &bad))?;
        if bad == good {
            same!(read.ok().map(|p| p.as_ref().to_vec()), Some(b), "{bad}");
            c.outcome("read");
        } else {
            ensure!(read.is_err(), "{bad} is accepted for {good}");
            c.outcome("refused");
        }
        Ok(())
    });
    explore(run, "lengths of addresses", |c: &mut Ch| {
        let n = c.pick(41);
        let fill = c.of(&[0u8, 1, 0x80, 0xff]);
        let env = c.of(&ENVS);
        let text = bech(prefix(env), &vec![fill; n]);
        c.op(|| text.clone());
        same!(PublicKeyHash::from_bytes(&vec![fill; n]).is_ok(), n == 20, "an address of {n} bytes");
        same!(PublicKeyHash::from_bech32(env, &text).is_ok(), n == 20, "{text} of {n} bytes");
        for p in ["", "w", "wi", "wit1", "wits", "ttwit", "tb", "WIT", "tit"] {
            let t = bech(p, &vec![fill; 20]);
            ensure!(guard(|| PublicKeyHash::from_bech32(env, &t).is_err())?, "{t} is accepted in {env}");
        }
        Ok(())
    });
}

fn pointers(run: &mut Run) {
    explore(run, "pointers", |c: &mut Ch| {
        let b = [c.of(&[0u8, 0x5a, 0xff]); 32];
        let h = hex(&b);
        let texts: &[(String, Option<u32>)] = &[
            ("0".into(), Some(0)),
            ("1".into(), Some(1)),
            ("007".into(), Some(7)),
            ("+3".into(), Some(3)),
            ("4294967295".into(), Some(u32::MAX)),
            ("4294967296".into(), None),
            ("-1".into(), None),
            ("".into(), None),
            ("x".into(), None),
            ("1 2".into(), None),
            ("0x1".into(), None),
            ("1.0".into(), None),
        ];
        let (index, want) = c.of(texts);
        let pointer = |i: u32| OutputPointer { transaction_id: Hash::SHA256(b), output_index: i };
        let (text, want) = match c.pick(12) {
            0 => (format!("{h}:{index}"), want),
            1 => (format!("  {h}:{index}\n"), want),
            2 => (format!("{h}:{index}:"), None),
            3 => (format!("{h}:{index}:0"), None),
            4 => (format!("{h}:{index}:junk"), None),
            5 => (format!(":{h}:{index}"), None),
            6 => (format!("{h}::{index}"), None),
            7 => (format!("{h}{index}"), None),
            8 => (format!("{}:{index}", &h[2..]), None),
            9 => (format!(":{index}"), None),
            10 => (format!("{index}:{h}"), None),
            _ => (format!("{h} : {index}"), None),
        };
        c.op(|| format!("{text:?}"));
        let want = want.map(pointer);
        same!(guard(|| text.parse::<OutputPointer>().ok())?, want, "the pointer {text:?}");
        same!(serde_json::from_value::<OutputPointer>(text.clone().into()).ok(), want, "the pointer {text:?} out of JSON");
        c.outcome(if want.is_some() { "read" } else { "refused" });
        if let Some(p) = want {
            let shown = format!("{h}:{}", p.output_index);
            same!((p.to_string(), format!("{p:?}")), (shown.clone(), shown.clone()), "the text of a pointer");
            same!(serde_json::to_string(&p).ok(), Some(format!("\"{shown}\"")), "a pointer in JSON");
            same!(bincode::deserialize::<OutputPointer>(&bincode::serialize(&p).unwrap()).ok(), Some(p), "a pointer in binary");
            let i = Input::new(p);
            same!((*i.output_pointer(), i.into_output_pointer()), (p, p), "the pointer of an input");
        }
        Ok(())
    });
    explore(run, "order of pointers", |c: &mut Ch| {
        let mut one = || (c.of(&[[0u8; 32], [1; 32], Hash::with_first_u32(1).data(), Hash::with_first_u32(0x0100_0000).data()]), c.of(&[0u32, 1, 255, 256, 65_536, u32::MAX]));
        let (a, b) = (one(), one());
        let f = |x: ([u8; 32], u32)| OutputPointer { transaction_id: Hash::SHA256(x.0), output_index: x.1 };
        same!(f(a).cmp(&f(b)), a.cmp(&b), "the order of {a:?} and {b:?}");
        same!(f(a) == f(b), a == b, "whether {a:?} is {b:?}");
        Ok(())
    });
}

#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
struct Number<T: std::str::FromStr + for<'a> Deserialize<'a>>
where
    <T as std::str::FromStr>::Err: std::fmt::Display,
{
    #[serde(deserialize_with = "number_from_string")]
    n: T,
}

fn numbers(run: &mut Run) {
    let edges: BTreeSet<i128> = (0..64).flat_map(|k| [(1i128 << k) - 1, 1 << k, (1 << k) + 1]).chain([(1 << 64) - 1, 1 << 64, -1, -128, -129, i128::from(i64::MIN)]).collect();
    let edges: Vec<i128> = edges.into_iter().collect();
    let edges = &edges;
    explore(run, "numbers in JSON", |c: &mut Ch| {
        let n = c.of(edges);
        let (text, fits) = match c.pick(8) {
            0 => (n.to_string(), true),
            1 => (format!("\"{n}\""), true),
            2 => (format!("\" {n}\""), false),
            3 => (format!("\"{n}.0\""), false),
            4 => (format!("[{n}]"), false),
            5 => (format!("\"{n}x\""), false),
            6 => ("null".into(), false),
            _ => (format!("{{\"n\":{n}}}"), false),
        };
        let json = format!("{{\"n\":{text}}}");
        c.op(|| json.clone());
        same!(serde_json::from_str::<Number<u64>>(&json).ok().map(|x| x.n), u64::try_from(n).ok().filter(|_| fits), "{json}");
        same!(serde_json::from_str::<Number<u32>>(&json).ok().map(|x| x.n), u32::try_from(n).ok().filter(|_| fits), "{json}");
        same!(serde_json::from_str::<Number<i64>>(&json).ok().map(|x| x.n), i64::try_from(n).ok().filter(|_| fits), "{json}");
        if let Ok(n) = u64::try_from(n) {
            let x = Number { n };
            same!(bincode::deserialize::<Number<u64>>(&bincode::serialize(&x).unwrap()).ok(), Some(x), "{n} in binary");
        }
        Ok(())
    });
    explore(run, "ways to select outputs", |c: &mut Ch| {
        let names = ["random", "big_first", "small_first", "Random", "BigFirst", "SmallFirst"];
        let i = c.pick(6);
        let pkh = PublicKeyHash::from_bytes(&[7; 20]).unwrap();
        let make = |i: usize, from: Option<PublicKeyHash>| match i % 3 {
            0 => UtxoSelectionStrategy::Random { from },
            1 => UtxoSelectionStrategy::BigFirst { from },
            _ => UtxoSelectionStrategy::SmallFirst { from },
        };
        let n = names[i];
        let (json, want) = match c.pick(10) {
            0 => (format!("\"{n}\""), Some(make(i, None))),
            1 => (format!("{{\"strategy\":\"{n}\"}}"), Some(make(i, None))),
            2 => (format!("{{\"strategy\":\"{n}\",\"from\":null}}"), Some(make(i, None))),
            3 => (format!("{{\"strategy\":\"{n}\",\"from\":\"{pkh}\"}}"), Some(make(i, Some(pkh)))),
            4 => (format!("{{\"from\":\"{pkh}\",\"strategy\":\"{n}\"}}"), Some(make(i, Some(pkh)))),
            5 => (format!("{{\"strategy\":\"{n}\",\"from\":\"{}\"}}", &pkh.to_string()[1..]), None),
            6 => (format!("{{\"from\":\"{pkh}\"}}"), None),
            7 => (format!("\"{}\"", n.to_uppercase()), None),
            8 => ("3".into(), None),
            _ => (format!("[\"{n}\"]"), None),
        };
        c.op(|| json.clone());
        same!(serde_json::from_str::<UtxoSelectionStrategy>(&json).ok(), want, "{json}");
        if let Some(w) = want {
            let text = serde_json::to_string(&w).unwrap();
            same!(serde_json::from_str::<UtxoSelectionStrategy>(&text).ok(), Some(w), "{text} read back");
        }
        Ok(())
    });
}

/// How bincode writes the parts of a source.
fn text_bytes(s: &str) -> Vec<u8> {
    blob(s.as_bytes())
}
fn blob(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u64).to_le_bytes()[..], b].concat()
}

fn sources(run: &mut Run) {
    explore(run, "sources of requests", |c: &mut Ch| {
        let kinds = [RADType::Unknown, RADType::HttpGet, RADType::Rng, RADType::HttpPost, RADType::HttpHead];
        let names = ["Unknown", "HTTP-GET", "RNG", "HTTP-POST", "HTTP-HEAD"];
        let k = c.pick(5);
        let url = c.of(&["", "http://a/?x=\"\\\u{e9}", "3"]);
        let script = c.of(&[vec![], vec![0x80], vec![0, 1, 2, 255]]);
        let body = c.of(&[vec![], vec![0, 0], b"{}".to_vec()]);
        let headers = c.of(&[vec![], vec![("a".to_string(), "".to_string())], vec![("b".into(), "c".into()), ("b".into(), "d\n".into())]]);
        let r = RADRetrieve { kind: kinds[k].clone(), url: url.into(), script: script.clone(), body: body.clone(), headers: headers.clone() };
        // as it is stored now
        let mut bin = [&3u32.to_le_bytes()[..], &(k as u32).to_le_bytes()[..]].concat();
        bin.extend(text_bytes(url));
        bin.extend(blob(&script));
        bin.extend(blob(&body));
        bin.extend((headers.len() as u64).to_le_bytes());
        for (a, b) in &headers {
            bin.extend(text_bytes(a));
            bin.extend(text_bytes(b));
        }
        same!(bincode::serialize(&r).ok(), Some(bin.clone()), "{r:?} in binary");
        // read alone, and among others
        same!(bincode::deserialize::<RADRetrieve>(&bin).ok(), Some(r.clone()), "{r:?} out of binary");
        let list = vec![r.clone(), RADRetrieve::default(), r.clone()];
        same!(bincode::deserialize::<Vec<RADRetrieve>>(&bincode::serialize(&list).unwrap()).ok(), Some(list), "a list of {r:?}");
        for cut in 0..bin.len() {
            ensure!(guard(|| bincode::deserialize::<RADRetrieve>(&bin[..cut]).is_err())?, "{r:?} cut at {cut} is accepted");
        }
        c.ops(bin.len() as u64);
        // as it was stored before bodies and headers
        if k < 3 {
            let mut old = (k as u32).to_le_bytes().to_vec();
            old.extend(text_bytes(url));
            old.extend(blob(&script));
            let want = RADRetrieve { body: vec![], headers: vec![], ..r.clone() };
            same!(bincode::deserialize::<RADRetrieve>(&old).ok(), Some(want.clone()), "an old {want:?}");
            let two = [&2u64.to_le_bytes()[..], &old, &bin].concat();
            same!(bincode::deserialize::<Vec<RADRetrieve>>(&two).ok(), Some(vec![want, r.clone()]), "old and new together");
        }
        for version in [4u32, 5, 255, u32::MAX] {
            let other = [&version.to_le_bytes()[..], &bin[4..]].concat();
            ensure!(guard(|| bincode::deserialize::<RADRetrieve>(&other).is_err())?, "version {version} is accepted");
        }
        // in JSON: nothing is said of what is empty, and nothing is needed
        let mut json = serde_json::json!({ "kind": names[k] });
        if !url.is_empty() {
            json["url"] = url.into();
        }
        if !script.is_empty() {
            json["script"] = script.clone().into();
        }
        if !body.is_empty() {
            json["body"] = body.clone().into();
        }
        if !headers.is_empty() {
            json["headers"] = serde_json::to_value(&headers).unwrap();
        }
        same!(serde_json::to_value(&r).ok(), Some(json.clone()), "{r:?} in JSON");
        same!(serde_json::from_value::<RADRetrieve>(json.clone()).ok(), Some(r.clone()), "{r:?} out of JSON");
        let full = serde_json::json!({ "kind": names[k], "url": url, "script": script, "body": body, "headers": headers });
        same!(serde_json::from_value::<RADRetrieve>(full.clone()).ok(), Some(r.clone()), "{r:?} out of JSON");
        let mut none = full;
        none.as_object_mut().unwrap().remove("kind");
        ensure!(serde_json::from_value::<RADRetrieve>(none).is_err(), "a source of no kind is accepted");
        c.op(|| format!("{r:?}"));
        Ok(())
    });
}

fn genesis(run: &mut Run) {
    explore(run, "the genesis file", |c: &mut Ch| {
        let pkh = |i: u8| PublicKeyHash::from_bytes(&[i; 20]).unwrap();
        let mut alloc = vec![];
        for t in 0..c.pick(3) {
            let n = c.pick(3);
            alloc.push((0..n).map(|i| (pkh((t * 3 + i) as u8), c.of(&[1u64, u64::MAX]), c.of(&[0u64, 1 << 40]))).collect::<Vec<_>>());
        }
        let break_ = if alloc.iter().flatten().count() > 0 { c.pick(6) } else { 0 };
        let json = serde_json::json!({ "alloc": alloc.iter().map(|t| t.iter().map(|(a, v, l)| {
            let mut o = serde_json::json!({ "address": a.to_string(), "value": v.to_string(), "timelock": l.to_string() });
            match break_ {
                1 => o["address"] = a.to_hex().into(),
                2 => o["value"] = format!("{v}00000000000000000000").into(),
                3 => { o.as_object_mut().unwrap().remove("timelock"); }
                4 => o["timelock"] = "-1".into(),
                5 => o["address"] = a.bech32(Environment::Testnet).into(),
                _ => {}
            }
            o
        }).collect::<Vec<_>>()).collect::<Vec<_>>() })
        .to_string();
        c.op(|| json.clone());
        let read = serde_json::from_str::<GenesisBlockInfo>(&json).ok();
        let want: Vec<Vec<ValueTransferOutput>> = alloc.iter().map(|t| t.iter().map(|(a, v, l)| ValueTransferOutput { pkh: *a, value: *v, time_lock: *l }).collect()).collect();
        same!(read.as_ref().map(|g| g.alloc.clone()), if break_ == 0 { Some(want.clone()) } else { None }, "{json}");
        c.outcome(if break_ == 0 { "read" } else { "refused" });
        if let Some(g) = read {
            let bootstrap = Hash::SHA256([9; 32]);
            let block = g.build_genesis_block(bootstrap);
            same!(block.txns.value_transfer_txns, want.iter().cloned().map(VTTransaction::genesis).collect::<Vec<_>>(), "what the genesis block pays");
            same!(block.block_header.beacon.hash_prev_block, bootstrap, "what it follows");
            same!(block.block_header.beacon.checkpoint, 0, "its epoch");
            // the file is accepted only if its block is the configured one
            use witnet_data_structures::{get_protocol_version, proto::versioning::VersionedHashable};
            let hash = block.versioned_hash(get_protocol_version(Some(0)));
            let dir = std::env::temp_dir().join(format!("c47-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let path = dir.join("genesis.json");
            std::fs::write(&path, &json).map_err(|e| e.to_string())?;
            let p = path.to_str().unwrap();
            let ok = GenesisBlockInfo::from_path(p, bootstrap, hash).map(|g| g.alloc).ok();
            let other = GenesisBlockInfo::from_path(p, bootstrap, Hash::SHA256([1; 32])).map(|g| g.alloc).ok();
            let boot = GenesisBlockInfo::from_path(p, Hash::SHA256([8; 32]), hash).map(|g| g.alloc).ok();
            std::fs::remove_file(&path).ok();
            let gone = GenesisBlockInfo::from_path(p, bootstrap, hash).map(|g| g.alloc).ok();
            std::fs::remove_dir(&dir).ok();
            same!((ok, other, boot, gone), (Some(want), None, None, None), "the file, with another hash, another bootstrap hash, and no file");
        }
        Ok(())
    });
}

fn sk(k: &[u8; 32]) -> secp256k1::SecretKey {
    secp256k1::SecretKey::from_slice(k).unwrap()
}

fn signatures(run: &mut Run) {
    let mut one = [0u8; 32];
    one[31] = 1;
    let keys = [one, [7; 32], [0x5a; 32], { let mut k = [0; 32]; k[0] = 0x80; k }];
    let keys = &keys;
    let messages = [[0u8; 32], [1; 32], [0xff; 32], { let mut m = [3; 32]; m[0] = 0; m }];
    explore(run, "recoverable signatures", |c: &mut Ch| {
        let k = c.of(keys);
        let m = c.of(&messages);
        let secret = sk(&k);
        let public = secp256k1::PublicKey::from_secret_key(&Secp256k1::new(), &secret);
        let msg = Message::from_digest_slice(&m).unwrap();
        let rec = SECP256K1.sign_ecdsa_recoverable(&msg, &secret);
        let (id, compact) = rec.serialize_compact();
        let mut bytes = vec![id.to_i32() as u8];
        bytes.extend(compact);
        let keyed = KeyedSignature { signature: Signature::from(rec.to_standard()), public_key: PublicKey::from(public) };
        same!(keyed.signature.to_bytes().ok(), Some(compact), "the signature");
        same!(KeyedSignature::from_recoverable(&rec, &m).ok(), Some(keyed.clone()), "whose signature it is");
        same!(keyed.clone().to_recoverable_bytes(&m).ok().map(|b| b.to_vec()), Some(bytes.clone()), "the signature with the way to its key");
        // as it is sent, and as it is not
        let mut sent = bytes.clone();
        let good = match c.pick(7) {
            0 => true,
            1 => {
                sent.truncate(c.pick(65));
                false
            }
            2 => {
                sent.push(0);
                false
            }
            3 => {
                let i = c.of(&[4u8, 5, 27, 28, 127, 128, 255]);
                sent[0] = i;
                false
            }
            4 => {
                sent[0] ^= 1;
                false
            }
            5 => {
                let at = 1 + c.pick(64);
                sent[at] ^= 1 << c.pick(8);
                false
            }
            _ => {
                sent[1..33].fill(c.of(&[0, 0xff]));
                false
            }
        };
        let text = hex(&sent);
        c.op(|| text.clone());
        let read = guard(|| KeyedSignature::from_recoverable_slice(&sent, &m).ok())?;
        same!(guard(|| KeyedSignature::from_recoverable_hex(&text, &m).ok())?, read, "{text} in hexadecimal");
        if good {
            same!(read, Some(keyed.clone()), "{text}");
            c.outcome("own");
        } else {
            ensure!(read.as_ref().map(|r| &r.public_key) != Some(&keyed.public_key), "{text} passes for a signature of the key");
            c.outcome(if read.is_some() { "of another key" } else { "refused" });
            // whatever is accepted is a signature of the key it says
            if let Some(r) = read {
                let p: secp256k1::PublicKey = r.public_key.clone().try_into().map_err(|e: anyhow::Error| e.to_string())?;
                let s: ecdsa::Signature = r.signature.clone().try_into().map_err(|e: anyhow::Error| e.to_string())?;
                let mut low = s;
                low.normalize_s();
                ensure!(low.verify(&msg, &p).is_ok(), "{text} is no signature of the key it gives");
                same!(r.signature.verify(&msg, &p).is_ok(), s == low, "whether {text} is accepted with its key");
            }
        }
        for junk in ["", "0", "zz", "00", "é0"] {
            ensure!(guard(|| KeyedSignature::from_recoverable_hex(junk, &m).is_err())?, "{junk:?} is a signature");
        }
        // messages of other lengths are none
        for n in [0, 1, 31, 33, 64] {
            ensure!(guard(|| KeyedSignature::from_recoverable_slice(&bytes, &vec![1; n]).is_err())?, "a message of {n} bytes is accepted");
        }
        // another message leads to another key, or to none, but not to this one
        let other = [0x33; 32];
        let wrong = guard(|| keyed.clone().to_recoverable_bytes(&other).ok())?;
        ensure!(wrong.is_none(), "the signature of another message is written as {:?}", wrong.map(|w| hex(&w)));
        Ok(())
    });
    explore(run, "signatures of small numbers", |c: &mut Ch| {
        // r so small that there may be four keys: what is written leads to the key, or is refused
        let mut compact = [0u8; 64];
        compact[31] = c.pick(256) as u8;
        compact[63] = c.of(&[1u8, 2, 9]);
        let m = c.of(&messages);
        let msg = Message::from_digest_slice(&m).unwrap();
        let Ok(plain) = ecdsa::Signature::from_compact(&compact) else {
            c.outcome("no signature");
            return Ok(());
        };
        let mut found = vec![];
        for i in 0..4 {
            let id = ecdsa::RecoveryId::from_i32(i).unwrap();
            if let Ok(r) = ecdsa::RecoverableSignature::from_compact(&compact, id) {
                if let Ok(p) = r.recover(&msg) {
                    found.push((i as u8, PublicKey::from(p)));
                }
            }
        }
        c.op(|| format!("r = {}, s = {}, message {:02x}.., {} keys", compact[31], compact[63], m[0], found.len()));
        c.outcome(&format!("{} keys", found.len()));
        let signature = Signature::from(plain);
        for (i, p) in &found {
            let keyed = KeyedSignature { signature: signature.clone(), public_key: p.clone() };
            let want = [&[*i][..], &compact].concat();
            same!(keyed.to_recoverable_bytes(&m).ok().map(|b| b.to_vec()), Some(want), "the signature with the way to its key {i}");
        }
        let stranger = PublicKey::from(secp256k1::PublicKey::from_secret_key(&Secp256k1::new(), &sk(&keys[1])));
        let keyed = KeyedSignature { signature, public_key: stranger };
        ensure!(keyed.to_recoverable_bytes(&m).is_err(), "a signature that is not of the key is written as one");
        Ok(())
    });
    explore(run, "keys", |c: &mut Ch| {
        let k = c.of(keys);
        let secret = sk(&k);
        let public = secp256k1::PublicKey::from_secret_key(&Secp256k1::new(), &secret);
        let ours = PublicKey::from(public);
        same!(ours.to_bytes(), public.serialize(), "the bytes of a key");
        same!(PublicKey::from_bytes(public.serialize()), ours.clone(), "a key of its bytes");
        let back: Result<secp256k1::PublicKey, anyhow::Error> = ours.clone().try_into();
        same!(back.ok(), Some(public), "the key again");
        let want: Vec<u8> = witnet_crypto::hash::calculate_sha256(&public.serialize()).0[..20].to_vec();
        same!(ours.pkh().as_ref().to_vec(), want, "the address of a key");
        same!(PublicKeyHash::from_public_key(&ours).as_ref().to_vec(), ours.pkh().as_ref().to_vec(), "the address of a key");
        let n = c.pick(70);
        same!(PublicKey::try_from_slice(&vec![2; n]).is_ok(), n == 33, "a key of {n} bytes");
        let first = c.of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 255]);
        let mut bytes = public.serialize();
        bytes[0] = first;
        let other: Result<secp256k1::PublicKey, anyhow::Error> = PublicKey::from_bytes(bytes).try_into();
        same!(other.is_ok(), first == 2 || first == 3, "a key that begins with {first}");
        same!(other.map(|p| p == public).unwrap_or(false), first == public.serialize()[0], "whether it is the key");
        let s = SecretKey::from(secret);
        same!(&*s.bytes, &k[..], "the secret key");
        let s2: secp256k1::SecretKey = s.into();
        same!(s2, secret, "the secret key again");
        // a signature in DER, whole, cut or with a byte too many
        let msg = Message::from_digest_slice(&[5; 32]).unwrap();
        let sig = SECP256K1.sign_ecdsa(&msg, &secret);
        let mut der = sig.serialize_der().to_vec();
        let cut = c.pick(der.len() + 2);
        let whole = der.len();
        der.resize(cut, 0);
        c.op(|| format!("{}", hex(&der)));
        let ours = Signature::Secp256k1(Secp256k1Signature { der });
        let read: Option<ecdsa::Signature> = guard(|| ours.clone().try_into().ok())?;
        same!(read, if cut == whole { Some(sig) } else { None }, "a signature of {cut} bytes");
        same!(guard(|| ours.to_bytes().ok())?, read.map(|s| s.serialize_compact()), "its bytes");
        same!(guard(|| ours.verify(&msg, &public).is_ok())?, cut == whole, "whether it is valid");
        Ok(())
    });
}

pub fn text(run: &mut Run) {
    hashes(run);
    addresses(run);
    pointers(run);
    numbers(run);
    sources(run);
    genesis(run);
    signatures(run);
}
