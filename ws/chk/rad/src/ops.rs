//! What each operator computes, next to what the code computes.
use crate::v::*;
use mc::{Run, ensure, explore, guard, same};
use serde_cbor::Value;
use sha2::{Digest, Sha256};
use witnet_data_structures::chain::tapi::{ActiveWips, all_wips_active};
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::radon_report::{ReportContext, RetrievalMetadata, Stage};
use witnet_rad::operators::{RadonOpCodes, operate_in_context};
use witnet_rad::script::{RadonScriptExecutionSettings, execute_radon_script};
use witnet_rad::types::RadonTypes;

/// The codes of the operators are part of the protocol.
pub const OPS: [(u8, &str); 57] = [
    (0x00, "Identity"),
    (0x10, "ArrayCount"), (0x11, "ArrayFilter"), (0x13, "ArrayGetArray"), (0x14, "ArrayGetBoolean"), (0x15, "ArrayGetBytes"), (0x16, "ArrayGetFloat"), (0x17, "ArrayGetInteger"), (0x18, "ArrayGetMap"), (0x19, "ArrayGetString"), (0x1a, "ArrayMap"), (0x1b, "ArrayReduce"), (0x1d, "ArraySort"),
    (0x20, "BooleanAsString"), (0x22, "BooleanNegate"),
    (0x30, "BytesToString"), (0x31, "BytesHash"), (0x32, "BytesToInteger"), (0x34, "BytesLength"), (0x3c, "BytesSlice"),
    (0x40, "IntegerAbsolute"), (0x41, "IntegerToFloat"), (0x42, "IntegerToString"), (0x43, "IntegerGreaterThan"), (0x44, "IntegerLessThan"), (0x46, "IntegerModulo"), (0x47, "IntegerMultiply"), (0x48, "IntegerNegate"), (0x49, "IntegerPower"), (0x4a, "IntegerToBytes"),
    (0x50, "FloatAbsolute"), (0x51, "FloatAsString"), (0x52, "FloatCeiling"), (0x53, "FloatGreaterThan"), (0x54, "FloatFloor"), (0x55, "FloatLessThan"), (0x56, "FloatModulo"), (0x57, "FloatMultiply"), (0x58, "FloatNegate"), (0x59, "FloatPower"), (0x5b, "FloatRound"), (0x5d, "FloatTruncate"),
    (0x61, "MapGetArray"), (0x62, "MapGetBoolean"), (0x63, "MapGetBytes"), (0x64, "MapGetFloat"), (0x65, "MapGetInteger"), (0x66, "MapGetMap"), (0x67, "MapGetString"), (0x68, "MapKeys"), (0x69, "MapValues"),
    (0x70, "StringAsBoolean"), (0x71, "StringAsBytes"), (0x72, "StringAsFloat"), (0x73, "StringAsInteger"), (0x74, "StringLength"), (0x75, "StringMatch"),
];
pub const MORE: [(u8, &str); 9] = [(0x76, "StringParseJSONArray"), (0x77, "StringParseJSONMap"), (0x78, "StringParseXMLMap"), (0x79, "StringToLowerCase"), (0x7a, "StringToUpperCase"), (0x7b, "StringReplace"), (0x7c, "StringSlice"), (0x7d, "StringSplit"), (0xff, "Fail")];
pub fn name(code: u8) -> &'static str {
    OPS.iter().chain(&MORE).find(|x| x.0 == code).map_or("", |x| x.1)
}

/// A value or null, as an argument.
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Null,
    X(V),
    /// a list with anything in it
    L(Vec<Arg>),
}
pub fn i(x: i128) -> Arg {
    Arg::X(V::I(x))
}
pub fn t(x: &str) -> Arg {
    Arg::X(s(x))
}
pub fn value(x: &V) -> Value {
    match x {
        V::I(x) => Value::Integer(*x),
        V::F(x) => Value::Float(*x),
        V::B(x) => Value::Bool(*x),
        V::S(x) => Value::Text(x.clone()),
        V::Y(x) => Value::Bytes(x.clone()),
        V::A(x) => Value::Array(x.iter().map(value).collect()),
        V::M(x) => Value::Map(x.iter().map(|(k, v)| (Value::Text(k.clone()), value(v))).collect()),
        V::E(..) => Value::Null,
    }
}
pub fn arg(x: &Arg) -> Value {
    match x {
        Arg::Null => Value::Null,
        Arg::X(x) => value(x),
        Arg::L(l) => Value::Array(l.iter().map(arg).collect()),
    }
}
pub type Call = (u8, Option<Vec<Arg>>);
pub fn call(c: &Call) -> (RadonOpCodes, Option<Vec<Value>>) {
    (RadonOpCodes::try_from(c.0).expect("operator"), c.1.as_ref().map(|l| l.iter().map(arg).collect()))
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ctx {
    pub v21: bool,
    pub wip24: bool,
}
/// An error that has no number of its own.
pub const OTHER: u8 = 0xfe;
type R = Result<V, V>;
fn other() -> R {
    Err(V::E(OTHER, vec![]))
}
fn int(x: Option<&Arg>, low: i128, high: i128) -> Option<i128> {
    match x {
        Some(Arg::X(V::I(n))) if *n >= low && *n <= high => Some(*n),
        _ => None,
    }
}
fn number(x: &str, minus: bool) -> Option<i128> {
    let (neg, digits) = match x.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, x.strip_prefix('+').unwrap_or(x)),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) || (neg && !minus) {
        return None;
    }
    digits.bytes().try_fold(0i128, |n, d| {
        let d = i128::from(d - b'0');
        n.checked_mul(10)?.checked_add(if neg { -d } else { d })
    })
}
fn text_of(v: &V) -> Option<String> {
    Some(match v {
        V::B(x) => x.to_string(),
        V::F(x) => x.to_string(),
        V::I(x) => x.to_string(),
        V::S(x) => x.clone(),
        V::Y(x) => String::from_utf8(x.clone()).ok()?,
        _ => return None,
    })
}
/// One line break at the end is ignored.
fn trim(x: &str) -> &str {
    x.strip_suffix('\n').unwrap_or(x)
}
fn separated(x: &str, args: &[Arg]) -> String {
    let sep = |k: usize, or: &str| match args.get(k) {
        Some(Arg::X(V::S(x))) if args.len() < 3 => x.clone(),
        _ => or.to_string(),
    };
    x.replace(&sep(0, ","), "").replace(&sep(1, "."), ".")
}
fn digest(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn unhex(x: &str) -> Option<Vec<u8>> {
    let d: Option<Vec<u32>> = x.chars().map(|c| if c.is_ascii() { c.to_digit(16) } else { None }).collect();
    Some(d?.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect())
}
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn base64(b: &[u8]) -> String {
    b.chunks(3)
        .map(|c| {
            let n = c.iter().fold(0u32, |n, b| n << 8 | *b as u32) << (8 * (3 - c.len()));
            (0..4).map(|k| if k <= c.len() { B64[(n >> (18 - 6 * k) & 63) as usize] as char } else { '=' }).collect::<String>()
        })
        .collect()
}
/// Everything that is the text of some bytes: found by trying.
fn unbase64(x: &str) -> Option<Vec<u8>> {
    if x.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for q in x.as_bytes().chunks(4) {
        let pad = q.iter().rev().take_while(|c| **c == b'=').count();
        let mut n = 0u32;
        for c in &q[..4 - pad.min(4)] {
            n = n << 6 | B64.iter().position(|d| d == c)? as u32;
        }
        if pad > 2 {
            return None;
        }
        n <<= 6 * pad;
        out.extend(&n.to_be_bytes()[1..4 - pad]);
    }
    (base64(&out) == x).then_some(out)
}
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn base58(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|b| **b == 0).count();
    let mut n = b.to_vec();
    let mut out = vec![];
    while n.iter().any(|b| *b != 0) {
        let mut rest = 0u32;
        for d in n.iter_mut() {
            let x = rest * 256 + *d as u32;
            *d = (x / 58) as u8;
            rest = x % 58;
        }
        out.push(B58[rest as usize] as char);
    }
    "1".repeat(zeros) + &out.iter().rev().collect::<String>()
}
fn unbase58(x: &str) -> Option<Vec<u8>> {
    let zeros = x.bytes().take_while(|b| *b == b'1').count();
    let mut n: Vec<u8> = vec![];
    for c in x.bytes() {
        let mut carry = B58.iter().position(|d| *d == c)? as u32;
        for d in n.iter_mut().rev() {
            carry += *d as u32 * 58;
            *d = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            n.insert(0, carry as u8);
            carry >>= 8;
        }
    }
    Some([vec![0; zeros], n].concat())
}
/// The part of a list of `len` from `start` to `end`, both counted from the end if negative.
fn range(len: usize, start: i128, end: i128) -> (usize, usize) {
    let len = len as i128;
    let at = |x: i128| (if x < 0 { x + len } else { x }).clamp(0, len) as usize;
    (at(start), at(end).max(at(start)))
}
fn saturate(x: f64) -> V {
    V::I(x as i128)
}
/// What a value is as another kind, where a conversion is silent.
fn as_kind(v: &V, kind: u8) -> Option<V> {
    match kind {
        7 => text_of(v).map(V::S),
        k => (v.kind() == k).then(|| v.clone()),
    }
}
/// The older reading of numbers.
fn as_number(v: &V, float: bool) -> Option<V> {
    match (v, float) {
        (V::F(_), true) | (V::I(_), false) => Some(v.clone()),
        (V::I(x), true) => Some(V::F(*x as f64)),
        (V::S(x), true) => x.parse().ok().map(V::F),
        (V::S(x), false) => number(x, true).map(V::I),
        _ => None,
    }
}
fn get(item: R, kind: u8, args: &[Arg], c: Ctx) -> R {
    let item = item?;
    match (kind, c.wip24) {
        (3 | 4, true) => {
            let Some(x) = text_of(&item) else { return other() };
            let x = separated(&x, args);
            if kind == 3 { x.parse().map(V::F).map_err(|_| V::E(OTHER, vec![])) } else { number(&x, true).map(V::I).ok_or(V::E(OTHER, vec![])) }
        }
        (3 | 4, false) => as_number(&item, kind == 3).ok_or(V::E(OTHER, vec![])),
        _ => as_kind(&item, kind).ok_or(V::E(OTHER, vec![])),
    }
}
/// The calls in a subscript.
pub fn subscript(x: &Arg) -> Option<Vec<Call>> {
    let known = |n: i128| u8::try_from(n).ok().filter(|n| !name(*n).is_empty());
    let calls = match x {
        Arg::L(l) => l.clone(),
        Arg::X(V::A(l)) => l.iter().cloned().map(Arg::X).collect(),
        _ => return None,
    };
    calls
        .iter()
        .map(|c| match c {
            Arg::X(V::I(n)) => known(*n).map(|n| (n, None)),
            Arg::L(l) => match l.split_first()? {
                (Arg::X(V::I(n)), rest) => known(*n).map(|n| (n, Some(rest.to_vec()))),
                _ => None,
            },
            Arg::X(V::A(l)) => match l.split_first()? {
                (V::I(n), rest) => known(*n).map(|n| (n, Some(rest.iter().cloned().map(Arg::X).collect()))),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
pub fn script(v: &V, calls: &[Call], c: Ctx) -> R {
    calls.iter().try_fold(v.clone(), |v, call| op(&v, call, c))
}
/// The results of a subscript. An error without a number becomes one of the kind "unhandled".
fn each(l: &[V], sub: &Arg, c: Ctx) -> Result<Vec<V>, V> {
    let calls = subscript(sub).ok_or(V::E(OTHER, vec![]))?;
    l.iter()
        .map(|v| {
            script(v, &calls, c).map_err(|e| match e {
                V::E(OTHER, _) => V::E(0xff, vec![]),
                e => e,
            })
        })
        .collect()
}
pub fn op(v: &V, (code, args): &Call, c: Ctx) -> R {
    let unsupported = || Err(V::E(0x20, vec![s(v.name()), s(name(*code))]));
    let out = |x: Option<V>| x.ok_or(V::E(OTHER, vec![]));
    let l = args.as_deref();
    let first = l.and_then(|l| l.first());
    let overflow = |x: Option<i128>| x.map(V::I).ok_or(V::E(0x41, vec![]));
    let all = i128::MIN..=i128::MAX;
    let any = |x: Option<&Arg>| int(x, *all.start(), *all.end());
    // a number that has no place in the range is refused
    let byte = |default: i128| match first {
        None => Some(default),
        x => int(x, 0, 255),
    };
    match (v, *code, l) {
        (_, 0x00, None) => Ok(v.clone()),
        (V::A(x), 0x10, None) => Ok(V::I(x.len() as i128)),
        (V::A(x), 0x13..=0x19, Some(l)) => {
            let kind = [0, 1, 2, 3, 4, 5, 7][*code as usize - 0x13];
            let numeric = (kind == 3 || kind == 4) && c.wip24;
            if if numeric { l.is_empty() } else { l.len() != 1 } {
                return other();
            }
            let Some(n) = int(first, i32::MIN.into(), i32::MAX.into()) else { return other() };
            let item = usize::try_from(n).ok().and_then(|n| x.get(n)).cloned().ok_or(V::E(0x70, vec![V::I(n)]));
            get(item, kind, &l[1..], c)
        }
        (V::A(x), 0x1a, Some(l)) => {
            if l.len() != 1 {
                return other();
            }
            each(x, &l[0], c).map(V::A)
        }
        (V::A(x), 0x11, Some([sub @ (Arg::L(_) | Arg::X(V::A(_))), ..])) => {
            let calls = subscript(sub).ok_or(V::E(OTHER, vec![]))?;
            let mut kept = vec![];
            for item in x {
                match script(item, &calls, c) {
                    Ok(V::B(true)) => kept.push(item.clone()),
                    Ok(V::B(false)) => {}
                    Ok(_) => return other(),
                    Err(V::E(OTHER, _)) => return Err(V::E(0xff, vec![])),
                    Err(e) => return Err(e),
                }
            }
            Ok(V::A(kept))
        }
        (V::A(_), 0x11, Some(_)) => other(),
        (V::A(x), 0x1d, Some(l)) => {
            if l.len() > 1 {
                return other();
            }
            let keys = each(x, l.first().unwrap_or(&Arg::L(vec![])), c)?;
            if x.is_empty() {
                return Ok(v.clone());
            }
            let same = |l: &[V]| l.windows(2).all(|w| w[0].kind() == w[1].kind());
            if !same(x) || !same(&keys) || !matches!(keys[0], V::S(_) | V::I(_)) {
                return other();
            }
            let mut order: Vec<usize> = (0..x.len()).collect();
            // equal keys stay in the order they were in
            order.sort_by(|a, b| match (&keys[*a], &keys[*b]) {
                (V::S(a), V::S(b)) => a.as_bytes().cmp(b.as_bytes()),
                (V::I(a), V::I(b)) => a.cmp(b),
                _ => std::cmp::Ordering::Equal,
            });
            Ok(V::A(order.into_iter().map(|k| x[k].clone()).collect()))
        }
        (V::B(x), 0x20, None) => Ok(V::S(x.to_string())),
        (V::B(x), 0x22, None) => Ok(V::B(!x)),
        (V::Y(x), 0x30, _) => {
            let kind = if c.v21 { byte(0) } else { Some(0) };
            out(match kind {
                Some(0) => Some(V::S(hex(x))),
                Some(0x10) => Some(V::S(base58(x))),
                Some(0x11) => Some(V::S(base64(x))),
                Some(0x80) => Some(V::S(String::from_utf8(x.clone()).unwrap_or_default())),
                _ => None,
            })
        }
        (V::Y(x), 0x31, Some(_)) => out((int(first, 0, 255) == Some(0x0a)).then(|| V::Y(digest(x)))),
        (V::Y(x), 0x32, _) if c.v21 => {
            let Some(k) = byte(0) else { return other() };
            if x.is_empty() || x.len() > 16 {
                return other();
            }
            // filled up with zeros in front, and then read
            let mut b = [vec![0; 16 - x.len()], x.clone()].concat();
            if k == 1 {
                b.reverse();
            }
            Ok(V::I(b.iter().fold(0i128, |n, b| n << 8 | *b as i128)))
        }
        (V::Y(x), 0x34, None) if c.v21 => Ok(V::I(x.len() as i128)),
        (V::Y(x), 0x3c, Some(l)) if c.v21 => {
            let Some(start) = int(first, i32::MIN.into(), i32::MAX.into()) else { return other() };
            let (a, b) = range(x.len(), start, int(l.get(1), i32::MIN.into(), i32::MAX.into()).unwrap_or(x.len() as i128));
            Ok(V::Y(x[a..b].to_vec()))
        }
        (V::I(x), 0x40, None) => overflow(x.checked_abs()),
        (V::I(x), 0x41, None) => Ok(V::F(*x as f64)),
        (V::I(x), 0x42, None) => Ok(V::S(x.to_string())),
        (V::I(x), 0x43, Some(_)) => out(any(first).map(|y| V::B(*x > y))),
        (V::I(x), 0x44, Some(_)) => out(any(first).map(|y| V::B(*x < y))),
        (V::I(x), 0x46, Some(_)) => match any(first) {
            Some(y) => overflow(x.checked_rem(y)),
            None => other(),
        },
        (V::I(x), 0x47, Some(_)) => match any(first) {
            Some(y) => overflow(x.checked_mul(y)),
            None => other(),
        },
        (V::I(x), 0x48, None) => overflow(x.checked_neg()),
        (V::I(x), 0x49, Some(_)) => match int(first, 0, u32::MAX.into()) {
            // one factor at a time
            Some(n) => {
                let n = if matches!(x, -1..=1) { n % 2 + if n > 1 { 2 } else { 0 } } else { n.min(200) };
                overflow((0..n).try_fold(1i128, |p, _| p.checked_mul(*x)))
            }
            None => other(),
        },
        (V::I(x), 0x4a, _) if c.v21 => {
            let Some(k) = byte(0) else { return other() };
            let mut b: Vec<u8> = (0..16).rev().map(|k| (x >> (8 * k)) as u8).collect();
            if k == 1 {
                b.reverse();
            }
            Ok(V::Y(b))
        }
        (V::F(x), 0x50, None) => Ok(V::F(x.abs())),
        (V::F(x), 0x51, None) => Ok(V::S(x.to_string())),
        (V::F(x), 0x52, None) => Ok(saturate(x.ceil())),
        (V::F(x), 0x54, None) => Ok(saturate(x.floor())),
        // halves away from zero
        (V::F(x), 0x5b, None) => Ok(saturate(if (x - x.trunc()).abs() >= 0.5 { x.trunc() + x.signum() } else { x.trunc() })),
        (V::F(x), 0x5d, None) => Ok(saturate(*x)),
        (V::F(x), 0x58, None) => Ok(V::F(-x)),
        (V::F(x), 0x53 | 0x55..=0x57 | 0x59, Some(_)) => match first {
            Some(Arg::X(V::F(y))) => Ok(match code {
                0x53 => V::B(x > y),
                0x55 => V::B(x < y),
                0x56 => V::F(x % y),
                0x57 => V::F(x * y),
                _ => V::F(x.powf(*y)),
            }),
            _ => other(),
        },
        (V::M(x), 0x61..=0x67, Some(l)) => {
            let kind = [0, 1, 2, 3, 4, 5, 7][*code as usize - 0x61];
            let Some(Arg::X(V::S(k))) = first else { return other() };
            get(x.get(k).cloned().ok_or(V::E(0x71, vec![s(k)])), kind, &l[1..], c)
        }
        (V::M(x), 0x68, None) => Ok(V::A(x.keys().map(|k| s(k)).collect())),
        (V::M(x), 0x69, None) => Ok(V::A(x.values().cloned().collect())),
        (V::S(x), 0x70, None) => out(match trim(x) {
            "true" => Some(V::B(true)),
            "false" => Some(V::B(false)),
            _ => None,
        }),
        (V::S(x), 0x71, _) => {
            let kind = match first {
                None => Some(0),
                f => int(f, 0, 255),
            };
            let digits = x.strip_prefix("0x").unwrap_or(x);
            let even = if digits.len() % 2 == 1 { format!("0{digits}") } else { digits.to_string() };
            out(match kind {
                Some(0) => unhex(&even).map(V::Y),
                Some(0x10) => unbase58(x).map(V::Y),
                Some(0x11) => unbase64(x).map(V::Y),
                Some(0x80) => Some(V::Y(x.as_bytes().to_vec())),
                _ => None,
            })
        }
        (V::S(x), 0x72 | 0x73, _) => {
            let x = if c.wip24 { separated(trim(x), l.unwrap_or_default()) } else { trim(x).to_string() };
            out(if *code == 0x72 { x.parse().ok().map(V::F) } else { number(&x, true).map(V::I) })
        }
        (V::S(x), 0x74, None) => Ok(V::I(x.len() as i128)),
        (V::S(x), 0x75, Some(l)) => match (first, l.get(1)) {
            (Some(Arg::X(V::M(cases))), Some(Arg::X(default))) => match (cases.get(x), default) {
                (None, d) => Ok(d.clone()),
                (Some(r @ (V::S(_) | V::Y(_))), V::S(_)) => out(text_of(r).map(V::S)),
                (Some(_), V::S(_)) => other(),
                (Some(r), V::F(_)) => out(as_number(r, true)),
                (Some(r), V::I(_)) => out(as_number(r, false)),
                (Some(r), d) => out((r.kind() == d.kind()).then(|| r.clone())),
            },
            _ => other(),
        },
        (V::S(x), 0x76 | 0x77, _) => match first {
            None => match serde_json::from_str(x).ok().and_then(|j| crate::values::json_meaning(&j)) {
                Some(r @ V::A(_)) if *code == 0x76 => Ok(r),
                Some(r @ V::M(_)) if *code == 0x77 => Ok(r),
                _ => other(),
            },
            _ => other(),
        },
        (V::S(x), 0x79, None) => Ok(V::S(x.to_lowercase())),
        (V::S(x), 0x7a, None) => Ok(V::S(x.to_uppercase())),
        (V::S(x), 0x7b, _) if c.v21 => match l {
            Some([Arg::X(V::S(from)), Arg::X(V::S(to)), ..]) if !from.contains('(') => Ok(V::S(x.replace(from, &to.replace("$0", from)))),
            _ => other(),
        },
        (V::S(x), 0x7c, Some(l)) if c.v21 => {
            let Some(start) = int(first, i32::MIN.into(), i32::MAX.into()) else { return other() };
            let (a, b) = range(x.len(), start, int(l.get(1), i32::MIN.into(), i32::MAX.into()).unwrap_or(x.len() as i128));
            // the positions are those of bytes: half a character is not a string
            if a == b { Ok(s("")) } else { out(x.get(a..b).map(s)) }
        }
        (V::S(x), 0x7d, _) if c.v21 => match first {
            None => Ok(V::A(x.split("").map(s).collect())),
            Some(Arg::X(V::S(p))) if !p.contains('(') => Ok(V::A(x.split(p.as_str()).map(s).collect())),
            _ => other(),
        },
        _ => unsupported(),
    }
}

pub fn context(c: Ctx, retrieval: bool) -> ReportContext<RadonTypes> {
    let wips = if c.wip24 { all_wips_active() } else { ActiveWips { active_wips: Default::default(), block_epoch: 0 } };
    let mut x = ReportContext::from_stage(if retrieval { Stage::Retrieval(RetrievalMetadata::default()) } else { Stage::Contextless });
    x.set_active_wips(wips);
    x.set_protocol_version(if c.v21 { ProtocolVersion::V2_1 } else { ProtocolVersion::V2_0 });
    x
}
/// The inner errors of calls on single items keep their number.
pub fn result(r: Result<RadonTypes, witnet_rad::error::RadError>) -> R {
    match r {
        Ok(x) => Ok(V::of(&x)),
        Err(e) => Err(V::err(&e)),
    }
}

pub fn inputs() -> Vec<V> {
    let y = |x: &[u8]| V::Y(x.to_vec());
    let mut l: Vec<V> = [0, 1, -1, 2, 7, -7, 255, 256, 10, i128::MAX, i128::MIN, 1 << 64, -(1 << 63)].map(V::I).to_vec();
    l.extend([0.0, -0.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.49999999999999994, 1e40, -1e40, 1e-310, f64::NAN, f64::INFINITY, 4503599627370497.5].map(V::F));
    l.extend([V::B(true), V::B(false)]);
    l.extend([y(&[]), y(&[0]), y(&[1]), y(&[1, 2]), y(&[0xff, 0xff, 0xff]), y(&[0x80; 16]), y(&[0; 17]), y(b"abc"), y("é".as_bytes()), y(&[0xc3]), y(&[0, 0, 9])]);
    l.extend(["", "a", "abc", "héé", "é", "🦀x", "0x0aff", "aff", "0XFF", "0x", "x0", "zz", "1,234.5", "1.234,5", "-12", "+7", "--1", "1 000", "true", "false\n", "True", "1\n", "1\n\n", "\n", " 1", "NaN", "-inf", "1e3", "-0", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "a,b,,c", "aaa", "a.b", "[1,2.5,\"x\",null]", "{\"a\":1,\"b\":null}", "[", "null", "1", "QUJD", "QUI=", "QQ==", "QR==", "QUI", "====", "İß", "1A", "O0", "<a><b>1</b></a>", "<"].map(s));
    l.extend([a(&[]), a(&[V::I(1)]), a(&[V::I(3), V::I(1), V::I(2), V::I(1)]), a(&[s("b"), s("a"), s("é"), s("b")]), a(&[s("1,5"), s("2")]), a(&[V::F(1.5), V::F(-1.0)]), a(&[V::B(true), V::B(false)]), a(&[V::I(1), s("a")]), a(&[V::Y(vec![97]), V::Y(vec![0xff])]), a(&[a(&[V::I(1), V::I(1)]), a(&[s("a"), s("a")])]), a(&[a(&[V::I(2)]), a(&[V::I(1)])]), a(&[m(&[("a", V::I(2))]), m(&[("a", V::I(1))])]), a(&[m(&[("a", V::I(2))]), m(&[("a", s("x"))])]), a(&[m(&[("a", V::I(2))]), m(&[])])]);
    l.extend([m(&[]), m(&[("a", V::I(5)), ("b", V::F(2.5)), ("c", V::B(true)), ("d", s("1,5")), ("e", V::Y(vec![98])), ("f", a(&[V::I(1)])), ("g", m(&[("a", V::I(1))]))]), m(&[("", s("-3")), ("a", s("x")), ("é", V::Y(vec![0xff]))])]);
    l
}
pub fn arguments() -> Vec<Option<Vec<Arg>>> {
    let x = |v: V| Arg::X(v);
    let call = |c: u8, l: &[Arg]| Arg::L([vec![i(c.into())], l.to_vec()].concat());
    let mut one: Vec<Arg> = [0, 1, 2, 3, -1, -2, -3, 5, 10, 16, 17, 127, 128, 255, 256, -256, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, (1 << 32) - 1, i128::MAX, i128::MIN].map(i).to_vec();
    one.extend([0.0, 2.0, -0.5, 0.5, f64::NAN, 1e300].map(|f| x(V::F(f))));
    one.extend(["", "a", "b", "é", ",", ".", " ", "(", "e", "d", "nokey"].map(t));
    one.extend([x(V::B(true)), Arg::Null, x(V::Y(vec![97])), x(m(&[])), x(m(&[("a", V::I(1))])), x(V::A(vec![]))]);
    // scripts
    one.extend([
        Arg::L(vec![i(0x00)]),
        Arg::L(vec![i(0x42)]),
        Arg::L(vec![i(0x48)]),
        Arg::L(vec![call(0x47, &[i(i128::MAX)])]),
        Arg::L(vec![call(0x43, &[i(1)])]),
        Arg::L(vec![call(0x44, &[i(2)])]),
        Arg::L(vec![call(0x47, &[i(-1)]), call(0x43, &[i(-2)])]),
        Arg::L(vec![i(0x22)]),
        Arg::L(vec![i(0x74)]),
        Arg::L(vec![i(0x73)]),
        Arg::L(vec![call(0x72, &[t(","), t(".")])]),
        Arg::L(vec![i(0x10)]),
        Arg::L(vec![call(0x65, &[t("a")])]),
        Arg::L(vec![call(0x67, &[t("a")])]),
        Arg::L(vec![call(0x64, &[t("a")]), i(0x5d)]),
        Arg::L(vec![call(0x75, &[x(m(&[("b", V::I(9)), ("a", V::I(10))])), x(V::I(0))])]),
        Arg::L(vec![call(0x13, &[i(0)])]),
        Arg::L(vec![call(0x16, &[])]),
        Arg::L(vec![call(0x1a, &[Arg::L(vec![i(0x42)])]), call(0x19, &[i(0)])]),
        Arg::L(vec![call(0x1b, &[i(2)])]),
        Arg::L(vec![i(0x7f)]),
        Arg::L(vec![i(-1)]),
        Arg::L(vec![i(0xff)]),
        Arg::L(vec![Arg::L(vec![])]),
        Arg::L(vec![Arg::L(vec![t("a")])]),
        Arg::L(vec![Arg::L(vec![i(0x1ff)])]),
        Arg::L(vec![t("a")]),
        Arg::L(vec![Arg::Null]),
    ]);
    let mut l: Vec<Option<Vec<Arg>>> = vec![None, Some(vec![])];
    l.extend(one.iter().map(|x| Some(vec![x.clone()])));
    let few = [0, 1, 2, 3, 4, -1, -2, -9, 1 << 31].map(i);
    for p in &few {
        for q in &few {
            l.push(Some(vec![p.clone(), q.clone()]));
        }
        for q in [t("x"), Arg::Null, t("."), t(",")] {
            l.push(Some(vec![p.clone(), q]));
        }
    }
    for p in ["", "a", ".", ",", "b", "(", "d", "(a)"] {
        for q in ["", "a", ".", ",", "$0$0", "é"] {
            l.push(Some(vec![t(p), t(q)]));
        }
        l.push(Some(vec![t(p), i(1)]));
    }
    for p in [i(0), i(1), t("d"), t("a")] {
        for (q, r) in [(",", "."), (".", ","), ("", ","), ("1", "5")] {
            l.push(Some(vec![p.clone(), t(q), t(r)]));
        }
        l.push(Some(vec![p.clone(), t("."), t(","), t("x")]));
    }
    let cases = [m(&[]), m(&[("a", V::I(1))]), m(&[("a", s("7"))]), m(&[("a", s("x"))]), m(&[("a", V::F(1.5))]), m(&[("a", V::B(true))]), m(&[("a", V::Y(vec![97]))]), m(&[("a", a(&[V::I(1)]))]), m(&[("a", m(&[]))]), m(&[("a", V::Y(vec![0xff]))])];
    let defaults = [V::I(0), s("z"), V::F(0.5), V::B(false), V::Y(vec![]), a(&[]), m(&[])];
    for c in &cases {
        for d in &defaults {
            l.push(Some(vec![x(c.clone()), x(d.clone())]));
        }
        l.push(Some(vec![x(c.clone()), Arg::Null]));
    }
    l
}
/// Calls of which the result is not stated: the paths of JSON, the reading of XML, whatever stands in for
/// regular expressions, whole numbers where a float is wanted, text that is given as bytes, and the filters
/// and reducers that have a number (they have a property of their own).
fn unstated(v: &V, (code, args): &Call) -> bool {
    let l = args.as_deref().unwrap_or_default();
    let bytes = |k: usize| matches!(l.get(k), Some(Arg::X(V::Y(_))));
    match code {
        0x1b => true,
        0x11 if matches!(l.first(), Some(Arg::X(V::I(_)))) => true,
        0x11 | 0x1a | 0x1d => matches!(l.first(), Some(Arg::L(c)) if c.iter().any(|c| matches!(c, Arg::L(c) if c.first() == Some(&i(0x1b))))),
        0x76 | 0x77 => matches!(l.first(), Some(Arg::X(V::S(_)) | Arg::L(_) | Arg::X(V::A(_)))),
        0x78 => args.is_none(),
        0x53 | 0x55..=0x59 => matches!(l.first(), Some(Arg::X(V::I(_)))),
        0x3c | 0x7c => l.len() > 1 && int(l.get(1), i32::MIN.into(), i32::MAX.into()).is_none(),
        0x7b | 0x7d => bytes(0) || bytes(1) || l.iter().take(if *code == 0x7d { 1 } else { 2 }).any(|x| matches!(x, Arg::X(V::S(p)) if p == "." || p == "(a)")) || (*code == 0x7b && l.first() == Some(&t(""))),
        0x61..=0x67 | 0x72 | 0x73 => (0..4).any(bytes),
        0x16 | 0x17 => matches!(l.first(), Some(Arg::X(V::I(n))) if *n > i32::MAX as i128) && matches!(v, V::A(_)),
        _ => false,
    }
}

pub fn operators(run: &mut Run) {
    run.assume("regular expressions are those of the crate; JSON paths and XML are read by stand-ins, so only their absence is checked");
    let (inputs, args) = (inputs(), arguments());
    let codes: Vec<u8> = OPS.iter().chain(&MORE).map(|x| x.0).collect();
    explore(run, "operators", |c| {
        let v = c.of(&inputs);
        let code = c.of(&codes);
        let ctx = Ctx { v21: c.flag(), wip24: c.flag() };
        let args = c.of(&args);
        let k = (code, args);
        c.op(|| format!("{v:?} . {} {:?} {ctx:?}", name(code), k.1));
        let x = v.rt();
        let (given, stage) = (call(&k), v.kind() == 0 && c.flag());
        c.ops(1);
        let got = guard(|| result(operate_in_context(x.clone(), &given, &mut context(ctx, stage))));
        let got = got?;
        if unstated(&v, &k) {
            c.outcome("not stated");
            return Ok(());
        }
        let want = op(&v, &k, ctx);
        same!(got, want, "result");
        c.outcome(match &want {
            Ok(_) => "value",
            Err(V::E(0x20, _)) => "unsupported",
            Err(_) => "error",
        });
        Ok(())
    });
    // the codes and what they are for
    explore(run, "codes", |c| {
        let n = c.pick(256) as u8;
        c.op(|| format!("{n:#x}"));
        c.ops(1);
        let k = RadonOpCodes::try_from(n).ok();
        same!(k.map(|k| format!("{k}")).unwrap_or_default(), name(n).to_string(), "name");
        if let Some(k) = k {
            same!(k as u8, n, "code");
            for v in [a(&[]), V::B(true), V::Y(vec![]), V::F(0.0), V::I(0), m(&[]), V::E(0, vec![]), s("")] {
                let range = [1, 2, 3, 5, 4, 6, 99, 7][v.kind() as usize];
                same!(k.operates_on(v.rt().discriminant()), n < 16 || n / 16 == range, "operates on {}", v.name());
            }
        }
        c.outcome(if k.is_some() { "known" } else { "unknown" });
        Ok(())
    });
    // several calls one after the other, and what is recorded about them
    let steps: Vec<Call> = vec![(0x73, None), (0x42, None), (0x47, Some(vec![i(3)])), (0x47, Some(vec![i(i128::MAX)])), (0x7d, Some(vec![t(",")])), (0x10, None), (0x1a, Some(vec![Arg::L(vec![i(0x73)])])), (0x11, Some(vec![Arg::L(vec![Arg::L(vec![i(0x43), i(1)])])])), (0x1d, Some(vec![])), (0x17, Some(vec![i(0)])), (0x77, None), (0x65, Some(vec![t("a")])), (0x69, None), (0x41, None), (0x5b, None), (0x00, None)];
    let starts = [s("5"), s("3,1,2"), s("{\"a\":7,\"b\":2}"), s("x")];
    let depth = run.pick(4, 5);
    explore(run, "scripts", |c| {
        let v = c.of(&starts);
        let calls = c.seq(&steps, depth);
        let ctx = Ctx { v21: c.flag(), wip24: true };
        let set = c.pick(3);
        c.op(|| format!("{v:?} {calls:?} {ctx:?} settings {set}"));
        c.ops(1);
        let given: Vec<_> = calls.iter().map(call).collect();
        let settings = [RadonScriptExecutionSettings::enable_all(), RadonScriptExecutionSettings::all_but_partial_results(), RadonScriptExecutionSettings::disable_all()][set];
        let mut at = context(ctx, true);
        let report = guard(|| execute_radon_script(v.rt(), &given, &mut at, settings))?.map_err(|e| format!("no report: {e:?}"))?;
        // the value after each call, up to the first error
        let mut trace = vec![Ok(v.clone())];
        for k in &calls {
            match trace.last() {
                Some(Ok(v)) => trace.push(op(&v.clone(), k, ctx)),
                _ => break,
            }
        }
        let shown = |x: &R| match x {
            Ok(v) => v.clone(),
            Err(V::E(OTHER, _)) => V::E(0xff, vec![]),
            Err(e) => e.clone(),
        };
        same!(V::of(&report.result), shown(trace.last().unwrap()), "result");
        same!(report.partial_results.as_ref().map(|l| l.iter().map(V::of).collect::<Vec<_>>()), (set == 0).then(|| trace.iter().map(shown).collect()), "partial results");
        // the scripts that are arguments leave their own time and place
        let inner = calls.iter().any(|k| matches!(k.0, 0x11 | 0x1a | 0x1d));
        if !inner {
            same!(report.context.call_index, if set < 2 { (trace.len() - 1).checked_sub(1) } else { None }, "call");
        }
        ensure!(set == 2 || (report.context.start_time.is_some() && report.context.completion_time.is_some()), "no time");
        ensure!(set < 2 || inner || (report.context.start_time.is_none() && report.context.completion_time.is_none()), "a time");
        c.outcome(if trace.last().unwrap().is_ok() { "value" } else { "error" });
        Ok(())
    });
}
