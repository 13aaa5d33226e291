//! What a value is revealed as, what bytes and JSON are read as.
use crate::v::*;
use cbor::types::Tag;
use cbor::value::{Bytes, Int, Key, Simple, Text, Value as Cbor};
use mc::{Ch, Run, ensure, explore, guard, same};
use serde_cbor::Value;
use sha2::{Digest, Sha256};
use std::hash::{DefaultHasher, Hash as _, Hasher};
use witnet_data_structures::chain::Hash;
use witnet_data_structures::chain::tapi::{ActiveWips, all_wips_active, current_active_wips};
use witnet_data_structures::radon_error::RadonErrors;
use witnet_data_structures::radon_report::{RadonReport, ReportContext, TypeLike};
use witnet_rad::error::RadError;
use witnet_rad::types::{RadonTypes, RadonTypesDiscriminant, serial_iter_decode};

pub fn scalars(run: &Run) -> Vec<V> {
    let mut l: Vec<V> = [0, 1, -1, 23, 24, -24, -25, 255, 256, -256, -257, 65535, 65536, -65536, -65537, u32::MAX as i128, 1 << 32, -(1 << 32), -(1 << 32) - 1, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128].map(V::I).to_vec();
    l.extend([i128::MAX, i128::MIN, 1 << 64, -(1 << 63), -(1 << 63) - 1, -(1 << 64), -(1 << 64) - 1].map(V::I));
    l.extend([0.0, -0.0, 1.0, -1.5, 0.1, 1e10, 65504.0, 65505.0, 65536.0, 5.960464477539063e-8, 3.0e-8, 6.1e-5, f32::MAX as f64, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].map(V::F));
    l.extend([V::B(false), V::B(true)]);
    let long = run.pick(vec![23, 24, 255, 256], vec![22, 23, 24, 254, 255, 256, 257, 65535, 65536, 70000]);
    for n in long {
        l.push(V::S("x".repeat(n)));
        l.push(V::Y(vec![7; n]));
    }
    l.extend(["", "a", "b", "é", "🦀", "\0", "\"", "0", "1"].map(s));
    l.extend([V::Y(vec![]), V::Y(vec![0]), V::Y(vec![0xff, 0xfe])]);
    l
}
/// A value of up to the given depth.
fn tree(c: &mut Ch, leaves: &[V], few: &[V], depth: usize) -> V {
    match if depth == 0 { 0 } else { c.pick(3) } {
        0 => c.of(if depth == 2 { leaves } else { few }),
        1 => {
            let n = c.pick(4);
            V::A((0..n).map(|_| tree(c, leaves, if n == 3 { &few[..4] } else { few }, depth - 1)).collect())
        }
        _ => {
            let keys = c.of(&[&[][..], &["a"], &["b", "a"], &["aa", "b"], &["", "é"]]);
            V::M(keys.iter().map(|k| (k.to_string(), tree(c, leaves, few, depth - 1))).collect())
        }
    }
}
fn ranked(v: &V) -> bool {
    match v {
        V::A(l) => l.windows(2).all(|w| w[0].kind() == w[1].kind()) && !l.is_empty(),
        _ => false,
    }
}
/// Every kind of value an error can be read from, with the arguments it has to have.
fn error_of(code: i128, args: &[V]) -> Option<V> {
    let none = || Some(V::E(code as u8, vec![]));
    let int = |v: &V, low: i128, high: i128| matches!(v, V::I(x) if *x >= low && *x <= high);
    match (code, args) {
        (0x00..=0x03 | 0x10 | 0x11 | 0x31 | 0x40..=0x42 | 0x50 | 0x52 | 0x54 | 0x60 | 0x61, _) => none(),
        (0xe0..=0xe2, _) => Some(V::E(0x60, vec![])),
        (0xff, []) => none(),
        (0x70, [x]) if int(x, i32::MIN.into(), i32::MAX.into()) => Some(V::E(0x70, vec![x.clone()])),
        (0x30, [x]) if int(x, 0, 65535) => Some(V::E(0x30, vec![x.clone()])),
        (0x71 | 0x53 | 0xff, [V::S(_)]) => Some(V::E(code as u8, args.to_vec())),
        (0x51, [x, y]) => {
            let f = |v: &V| match v {
                V::F(x) => Some(V::F(*x)),
                V::I(x) => Some(V::F(*x as f64)),
                _ => None,
            };
            Some(V::E(0x51, vec![f(x)?, f(y)?]))
        }
        // the third is the arguments of the call
        (0x20, [V::S(x), V::S(y), V::A(_)]) => Some(V::E(0x20, vec![s(x), s(y)])),
        _ => None,
    }
}
fn read(b: &[u8]) -> Result<V, String> {
    guard(|| RadonTypes::try_from(b).map(|x| V::of(&x)).map_err(|e| format!("{e:?}")))?
}
fn code_hash(x: &RadonTypes) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn values(run: &mut Run) {
    run.assume("the CBOR libraries (serde_cbor, cbor-codec) are stand-ins written after the published ones; the code under test is the conversion to and from their values");
    let leaves = scalars(run);
    let few: Vec<V> = [V::I(5), V::F(1.5), s("a"), V::B(true), V::I(-1), V::Y(vec![1]), V::F(0.0), s("")].to_vec();
    let few = &few[..run.pick(6, 8)];
    // 1. every value survives
    explore(run, "values", |c| {
        let v = tree(c, &leaves, few, 2);
        c.op(|| format!("{:.300}", format!("{v:?}")));
        c.ops(6);
        let x = v.rt();
        same!(V::of(&x), v, "the value built");
        same!(x.radon_type_name(), v.name(), "its type");
        same!(u8::from(x.discriminant()), v.kind(), "its kind");
        if let RadonTypes::Array(l) = &x {
            same!(l.is_homogeneous(), ranked(&v), "homogeneous");
        }
        let bytes = v.cbor();
        let code = guard(|| x.encode())?.ok();
        same!(code, bytes, "bytes");
        let result = RadonReport::from_result(Ok(x.clone()), &ReportContext::default());
        same!(V::of(&result.result), v, "reported");
        match &bytes {
            None => {
                ensure!(guard(|| x.clone().hash())?.is_err(), "a value without an encoding has a hash");
                c.outcome("no encoding");
            }
            Some(b) => {
                let y = read(b)?;
                same!(y, v, "read back from {b:02x?}");
                let h: [u8; 32] = Sha256::digest(b).into();
                same!(guard(|| x.clone().hash())?.ok(), Some(Hash::SHA256(h)), "hash");
                // the same through the other library's values
                let value = guard(|| Value::try_from(x.clone()))?.map_err(|e| format!("no value: {e:?}"))?;
                let back = guard(|| RadonTypes::try_from(value.clone()))?.map_err(|e| format!("value not read: {e:?}"))?;
                same!(V::of(&back), v, "read back from a value");
                ensure!(back == x, "the value read back differs");
                c.outcome(["array", "boolean", "bytes", "float", "integer", "map", "error", "string"][v.kind() as usize]);
            }
        }
        Ok(())
    });
    // 2. equal means the same kind and the same bytes, and equal values have equal hashes
    let mut many: Vec<V> = leaves.iter().filter(|x| x.cbor().is_some()).cloned().collect();
    for x in few {
        many.push(a(&[x.clone()]));
        many.push(a(&[x.clone(), x.clone()]));
        many.push(m(&[("a", x.clone())]));
        many.push(a(&[a(&[x.clone()])]));
    }
    many.extend([a(&[]), m(&[]), a(&[a(&[])]), a(&[m(&[])]), m(&[("a", m(&[]))]), m(&[("b", V::I(5))]), m(&[("a", V::I(5)), ("b", V::I(5))])]);
    many.extend([0x00, 0x01, 0x10, 0x31, 0x42, 0x50, 0x60, 0xff].map(|k| V::E(k, vec![])));
    many.extend([V::E(0x30, vec![V::I(404)]), V::E(0x30, vec![V::I(500)]), V::E(0x51, vec![V::F(0.5), V::F(51.0)]), V::E(0x71, vec![s("a")]), V::E(0x71, vec![s("b")]), V::E(0x70, vec![V::I(0)]), V::E(0x70, vec![V::I(-1)]), V::E(0x53, vec![s("inner: None")])]);
    explore(run, "pairs of values", |c| {
        let (x, y) = (c.of(&many), c.of(&many));
        c.op(|| format!("{:.200} and {:.200}", format!("{x:?}"), format!("{y:?}")));
        c.ops(1);
        let (p, q) = (x.rt(), y.rt());
        same!(p == q, x == y, "equal");
        if x == y {
            same!(code_hash(&p), code_hash(&q), "hash of equal values");
            ensure!(p.clone().hash() == q.hash(), "digest of equal values");
            c.outcome("equal");
        } else {
            ensure!(p.encode().map_err(drop) != q.encode().map_err(drop), "two different values are revealed as the same bytes");
            c.outcome("different");
        }
        Ok(())
    });
    cbor_values(run);
    errors(run);
    reveals(run);
    json(run);
}

/// What the values of the CBOR library are read as. Nothing if they are refused.
fn meaning(x: &Cbor) -> Option<V> {
    Some(match x {
        Cbor::Bool(b) => V::B(*b),
        Cbor::U8(n) => V::I((*n).into()),
        Cbor::U16(n) => V::I((*n).into()),
        Cbor::U32(n) => V::I((*n).into()),
        Cbor::U64(n) => V::I((*n).into()),
        Cbor::I8(n) => V::I((*n).into()),
        Cbor::I16(n) => V::I((*n).into()),
        Cbor::I32(n) => V::I((*n).into()),
        Cbor::I64(n) => V::I((*n).into()),
        Cbor::Int(Int::Pos(n)) => V::I((*n).into()),
        // what CBOR calls the negative integers
        Cbor::Int(Int::Neg(n)) => V::I(-1 - i128::from(*n)),
        Cbor::F32(x) => V::F((*x).into()),
        Cbor::F64(x) => V::F(*x),
        Cbor::Text(Text::Text(t)) => s(t),
        Cbor::Bytes(Bytes::Bytes(t)) => V::Y(t.clone()),
        Cbor::Array(l) => V::A(l.iter().map(meaning).collect::<Option<_>>()?),
        // anything that is not understood is left out of a map
        Cbor::Map(l) => V::M(
            l.iter()
                .filter_map(|(k, v)| match k {
                    Key::Text(Text::Text(k)) => Some((k.clone(), meaning(v)?)),
                    _ => None,
                })
                .collect(),
        ),
        Cbor::Tagged(t, x) if t.to() == 39 => match &**x {
            Cbor::Array(l) => {
                let l: Vec<V> = l.iter().map(meaning).collect::<Option<_>>()?;
                match l.split_first()? {
                    (V::I(code), args) => error_of(*code, args)?,
                    _ => return None,
                }
            }
            _ => return None,
        },
        Cbor::Tagged(_, x) => meaning(x)?,
        _ => return None,
    })
}
fn cbor_tree(c: &mut Ch, atoms: &[Cbor], depth: usize) -> Cbor {
    match if depth == 0 { 0 } else { c.pick(4) } {
        0 => c.of(atoms),
        1 => {
            let n = c.pick(3);
            Cbor::Array((0..n).map(|_| cbor_tree(c, if n == 2 { &atoms[..8] } else { atoms }, depth - 1)).collect())
        }
        2 => {
            let text = |t: &str| Key::Text(Text::Text(t.into()));
            let keys = c.of(&[vec![], vec![text("a")], vec![text("a"), text("b")], vec![Key::Int(Int::Pos(1))], vec![Key::Bool(true), text("a")], vec![Key::Bytes(Bytes::Bytes(vec![97]))], vec![Key::Text(Text::Chunks([String::from("a")].into_iter().collect()))]]);
            let n = keys.len();
            Cbor::Map(keys.into_iter().map(|k| (k, cbor_tree(c, if n == 2 { &atoms[..8] } else { atoms }, depth - 1))).collect())
        }
        _ => {
            let t = c.of(&[Tag::of(0), Tag::of(2), Tag::of(3), Tag::of(38), Tag::of(40), Tag::of(55799), Tag::of(u64::MAX)]);
            Cbor::Tagged(t, Box::new(cbor_tree(c, atoms, depth - 1)))
        }
    }
}
fn cbor_values(run: &mut Run) {
    let text = |t: &str| Cbor::Text(Text::Text(t.into()));
    let error = |l: &[Cbor]| Cbor::Tagged(Tag::of(39), Box::new(Cbor::Array(l.to_vec())));
    let mut atoms = vec![Cbor::U8(7), text("a"), Cbor::F32(0.5), Cbor::Null, error(&[Cbor::U8(0x42)]), Cbor::Bool(false), Cbor::I8(-3), Cbor::Bytes(Bytes::Bytes(vec![1, 2]))];
    atoms.extend([Cbor::U8(0), Cbor::U8(255), Cbor::U16(256), Cbor::U16(0), Cbor::U32(u32::MAX), Cbor::U64(0), Cbor::U64(u64::MAX), Cbor::I8(-128), Cbor::I8(-1), Cbor::I16(i16::MIN), Cbor::I32(i32::MIN), Cbor::I64(i64::MIN)]);
    atoms.extend([0, 1, 255, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX].map(|n| Cbor::Int(Int::Pos(n))));
    atoms.extend([i64::MAX as u64 + 1, u64::MAX].map(|n| Cbor::Int(Int::Neg(n))));
    atoms.extend([Cbor::F32(f32::NAN), Cbor::F32(-0.0), Cbor::F32(f32::MAX), Cbor::F64(0.1), Cbor::F64(f64::NEG_INFINITY), Cbor::F64(f64::NAN)]);
    atoms.extend([text(""), text("é"), Cbor::Text(Text::Chunks(["a".to_string()].into_iter().collect())), Cbor::Bytes(Bytes::Bytes(vec![])), Cbor::Bytes(Bytes::Chunks([vec![1]].into_iter().collect()))]);
    atoms.extend([Cbor::Undefined, Cbor::Break, Cbor::Simple(Simple::Unassigned(3)), Cbor::Simple(Simple::Reserved(30)), Cbor::Bool(true)]);
    atoms.extend([error(&[Cbor::U8(0x30), Cbor::U16(404)]), error(&[Cbor::U8(0x30)]), error(&[Cbor::U8(0x99)]), error(&[Cbor::I8(-1)]), error(&[Cbor::U16(256)]), error(&[]), error(&[text("a")]), Cbor::Tagged(Tag::of(39), Box::new(Cbor::U8(0)))]);
    let depth = run.pick(2, 3);
    let few = [run.pick(12, 24), atoms.len()];
    explore(run, "values of the CBOR library", |c| {
        // one level of all of them, or more levels of some
        let deep = c.flag();
        let x = cbor_tree(c, if deep { &atoms[..few[0]] } else { &atoms[..few[1]] }, if deep { depth } else { 1 });
        c.op(|| format!("{x:?}"));
        c.ops(1);
        let want = meaning(&x);
        let code = guard(|| RadonTypes::try_from(x.clone()).ok().map(|v| V::of(&v)))?;
        same!(code, want, "read");
        c.outcome(match want {
            None => "refused",
            Some(_) => "read",
        });
        Ok(())
    });
}

/// The numbers of the errors are part of the protocol.
fn errors(run: &mut Run) {
    let args = [V::I(0), V::I(-1), V::I(404), V::I(65536), V::I(1 << 40), V::F(0.5), V::F(51.25), s("a"), s(""), V::B(true), a(&[]), a(&[V::I(1)]), m(&[])];
    let codes: Vec<i128> = (0..=256).chain([-1, 65536, 1 << 32]).collect();
    let three = run.thorough();
    explore(run, "errors in the bytes", |c| {
        let code = c.of(&codes);
        let n = c.pick(if three || code == 0x20 { 4 } else { 3 });
        let l: Vec<V> = (0..n).map(|_| c.of(&args)).collect();
        let mut b = vec![0xd8, 39];
        let mut all = vec![V::I(code)];
        all.extend(l.clone());
        b.extend(V::A(all).cbor().unwrap());
        c.op(|| format!("error {code:#x} {l:?}: {b:02x?}"));
        c.ops(1);
        let want = error_of(code, &l);
        let got = read(&b);
        same!(got.clone().ok(), want, "read {got:?}");
        if let Some(w) = &want {
            let x = RadonTypes::try_from(&b[..]).map_err(|e| format!("{e:?}"))?;
            let again = guard(|| x.encode())?.map_err(|e| format!("not encoded: {e:?}"))?;
            same!(read(&again)?, w.clone(), "read again");
            if !matches!(w, V::E(0x20, _)) {
                same!(Some(again.clone()), w.cbor(), "written again");
            }
            let y = RadonTypes::try_from(&again[..]).map_err(|e| format!("{e:?}"))?;
            same!(y.encode().ok(), Some(again), "written a third time");
            ensure!(x == y, "the error read back differs");
            c.outcome("an error");
        } else {
            c.outcome("refused");
        }
        Ok(())
    });
    // the errors the code can raise
    let inner = || Some(Box::new(RadError::DivisionByZero));
    let e = RadError::Unknown;
    let raised: Vec<(RadError, Option<(u8, Vec<V>)>)> = vec![
        (e.clone(), Some((0x00, vec![]))),
        (RadError::SourceScriptNotCBOR, Some((0x01, vec![]))),
        (RadError::SourceScriptNotArray, Some((0x02, vec![]))),
        (RadError::SourceScriptNotRADON, Some((0x03, vec![]))),
        (RadError::RequestTooManySources, Some((0x10, vec![]))),
        (RadError::ScriptTooManyCalls, Some((0x11, vec![]))),
        (RadError::UnsupportedOperator { input_type: "T".into(), operator: "O".into(), args: Some(vec![Value::Integer(1)]) }, Some((0x20, vec![s("T"), s("O"), a(&[V::I(1)])]))),
        (RadError::HttpStatus { status_code: 404 }, Some((0x30, vec![V::I(404)]))),
        (RadError::HttpStatus { status_code: 65535 }, Some((0x30, vec![V::I(65535)]))),
        (RadError::RetrieveTimeout, Some((0x31, vec![]))),
        (RadError::Underflow, Some((0x40, vec![]))),
        (RadError::Overflow, Some((0x41, vec![]))),
        (RadError::DivisionByZero, Some((0x42, vec![]))),
        (RadError::NoReveals, Some((0x50, vec![]))),
        (RadError::InsufficientConsensus { achieved: 0.5, required: 51.0 }, Some((0x51, vec![V::F(0.5), V::F(51.0)]))),
        (RadError::InsufficientConsensus { achieved: 1.0 / 3.0, required: 0.0 }, Some((0x51, vec![V::F(1.0 / 3.0), V::F(0.0)]))),
        (RadError::InsufficientCommits, Some((0x52, vec![]))),
        (RadError::TallyExecution { inner: None, message: Some("x".into()) }, Some((0x53, vec![s("x")]))),
        (RadError::TallyExecution { inner: inner(), message: None }, Some((0x53, vec![s("inner: DivisionByZero")]))),
        (RadError::TallyExecution { inner: None, message: None }, Some((0x53, vec![s("inner: None")]))),
        (RadError::TooManyWitnesses, Some((0x54, vec![]))),
        (RadError::MalformedReveal, Some((0x60, vec![]))),
        (RadError::EncodeReveal, Some((0x61, vec![]))),
        (RadError::ArrayIndexOutOfBounds { index: i32::MIN }, Some((0x70, vec![V::I(i32::MIN.into())]))),
        (RadError::ArrayIndexOutOfBounds { index: 3 }, Some((0x70, vec![V::I(3)]))),
        (RadError::MapKeyNotFound { key: "k".into() }, Some((0x71, vec![s("k")]))),
        (RadError::UnhandledIntercept { inner: None, message: Some("x".into()) }, Some((0xff, vec![s("x")]))),
        (RadError::UnhandledIntercept { inner: inner(), message: None }, Some((0xff, vec![s("inner: DivisionByZero")]))),
        (RadError::UnhandledInterceptV2 { inner: inner() }, Some((0xff, vec![]))),
        // two transports that disagree
        (RadError::InconsistentSource, Some((0x00, vec![]))),
        // everything else has no number
        (RadError::Decode { from: "a", to: "b" }, None),
        (RadError::Hash, None),
        (RadError::EmptyArray, None),
        (RadError::InputTooBig, None),
        (RadError::UnknownRetrieval, None),
        (RadError::JsonParse { description: "x".into() }, None),
        (RadError::HttpOther { message: "x".into() }, None),
        (RadError::ParseInt { message: "x".into() }, None),
        (RadError::NotIntegerOperator, None),
        (RadError::EncodeRadonErrorUnknownCode, None),
    ];
    explore(run, "errors raised", |c| {
        let (e, want) = c.of(&raised);
        let strip = c.flag();
        c.op(|| format!("{e:?}{}", if strip { " without its message" } else { "" }));
        c.ops(3);
        let mut x = guard(|| RadonTypes::intercept(Err(e.clone())))?;
        if strip {
            guard(|| x.remove_message_from_error_unhandled_intercept())?;
        }
        ensure!(x.discriminant() == RadonTypesDiscriminant::Error, "an error is not an error");
        let report = RadonReport::from_result(Err(e.clone()), &ReportContext::default());
        ensure!(matches!(report.result, RadonTypes::RadonError(_)), "an error is reported as a value");
        let b = guard(|| x.encode())?.map_err(|e| format!("not encoded: {e:?}"))?;
        same!(e.try_into_error_code().ok().map(u8::from), want.as_ref().map(|w| w.0), "number");
        let wire = match &want {
            Some((0xff, _)) if strip => V::E(0xff, vec![]),
            Some((code, args)) => V::E(*code, args.clone()),
            None if strip => V::E(0xff, vec![]),
            // says which
            None => {
                let message = match V::of(&RadonTypes::try_from(&b[..]).map_err(|e| format!("{e:?}"))?) {
                    V::E(0xff, l) => l,
                    other => return Err(format!("an unhandled error is read as {other:?}")),
                };
                same!(message.len(), 1, "message");
                let name = format!("{e:?}").split([' ', '(', '{']).next().unwrap_or("").to_string();
                ensure!(matches!(&message[0], V::S(t) if t.contains(&name)), "the message {message:?} does not say {name}");
                c.outcome("unhandled");
                return Ok(());
            }
        };
        same!(Some(b.clone()), wire.cbor(), "bytes");
        ensure!(RadonTypes::try_from(&b[..]).map_err(|e| format!("{e:?}"))? == x, "the error read back differs");
        c.outcome("numbered");
        Ok(())
    });
    explore(run, "numbers of the errors", |c| {
        let n = c.pick(256) as u8;
        c.op(|| format!("{n:#x}"));
        c.ops(1);
        let known = [0x00, 0x01, 0x02, 0x03, 0x10, 0x11, 0x20, 0x30, 0x31, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54, 0x60, 0x61, 0x70, 0x71, 0xe0, 0xe1, 0xe2, 0xff];
        let k = RadonErrors::try_from(n).ok();
        same!(k.is_some(), known.contains(&n), "known");
        if let Some(k) = k {
            same!(u8::from(k), n, "number");
        }
        c.outcome(if k.is_some() { "known" } else { "unknown" });
        Ok(())
    });
}

/// Whatever bytes the witnesses reveal, each gives one report, in order, and the node goes on.
fn reveals(run: &mut Run) {
    let heads = [0x00, 0x17, 0x18, 0x1b, 0x20, 0x38, 0x3b, 0x40, 0x41, 0x5f, 0x60, 0x61, 0x7f, 0x80, 0x81, 0x82, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xd8, 39, 0x30, 0x51, 0xe0, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfb, 0xfc, 0xff];
    let len = run.pick(4, 5);
    let wips = [all_wips_active(), ActiveWips { active_wips: Default::default(), block_epoch: 0 }, current_active_wips()];
    // what is put in the place of those that cannot be read
    fn malformed(_: RadError, _: &[u8], _: &()) -> Option<RadonReport<RadonTypes>> {
        Some(RadonReport::from_result(Err(RadError::MalformedReveal), &ReportContext::default()))
    }
    fn drop_it(_: RadError, _: &[u8], _: &()) -> Option<RadonReport<RadonTypes>> {
        None
    }
    explore(run, "reveals of any bytes", |c| {
        let b: Vec<u8> = c.seq(&heads, len);
        c.op(|| format!("{b:02x?}"));
        c.ops(2);
        let single = guard(|| RadonTypes::try_from(&b[..]).ok().map(|x| V::of(&x))).ok().flatten();
        let l: Vec<(&[u8], &())> = vec![(&[7], &()), (&b, &()), (&[0x61, 0x61], &())];
        let r = guard(|| serial_iter_decode(&mut l.clone().into_iter(), malformed, &wips[0]))?;
        let want = vec![V::I(7), single.clone().unwrap_or(V::E(0x60, vec![])), s("a")];
        same!(r.iter().map(|x| V::of(&x.result)).collect::<Vec<_>>(), want, "reports");
        c.outcome(match &single {
            None => "malformed",
            Some(V::E(..)) => "an error",
            Some(_) => "a value",
        });
        Ok(())
    });
    let known: Vec<Vec<u8>> = [V::I(1), s("x"), V::E(0x61, vec![]), V::E(0x60, vec![]), V::E(0x42, vec![])].iter().map(|v| v.cbor().unwrap()).chain([vec![], vec![0xf6], vec![0xd8, 39, 0xe0], vec![0xd8, 39, 0x80], vec![0x82, 1]]).collect();
    explore(run, "lists of reveals", |c| {
        let l = c.seq(&known, 3);
        let (keep, w) = (c.flag(), c.pick(3));
        c.op(|| format!("{l:02x?} keep {keep} upgrades {w}"));
        c.ops(1);
        let items: Vec<(&[u8], &())> = l.iter().map(|b| (&b[..], &())).collect();
        let r = guard(|| serial_iter_decode(&mut items.into_iter(), if keep { malformed } else { drop_it }, &wips[w]))?;
        let legacy = !wips[w].wip0026();
        let want: Vec<V> = l
            .iter()
            .filter_map(|b| {
                let v = guard(|| RadonTypes::try_from(&b[..]).ok().map(|x| V::of(&x))).ok().flatten().filter(|v| !(legacy && *v == V::E(0x61, vec![])));
                v.or(keep.then_some(V::E(0x60, vec![])))
            })
            .collect();
        same!(r.iter().map(|x| V::of(&x.result)).collect::<Vec<_>>(), want, "reports");
        c.outcome(if legacy { "before WIP-0026" } else { "after WIP-0026" });
        Ok(())
    });
}

/// Nothing if it is null.
pub fn json_meaning(x: &serde_json::Value) -> Option<V> {
    use serde_json::Value as J;
    Some(match x {
        J::Null => return None,
        J::Bool(b) => V::B(*b),
        J::Number(n) => match (n.as_i64(), n.as_u64(), n.as_f64()) {
            (Some(n), _, _) => V::I(n.into()),
            (_, Some(n), _) => V::I(n.into()),
            // whole positive numbers that fit are integers
            (_, _, Some(f)) if f.is_normal() && f == f.trunc() && f > 0.0 && f < 1e38 => V::I(f as i128),
            (_, _, Some(f)) => V::F(f),
            _ => return None,
        },
        J::String(t) => s(t),
        J::Array(l) => V::A(l.iter().filter_map(json_meaning).collect()),
        J::Object(l) => V::M(l.iter().filter_map(|(k, v)| Some((k.clone(), json_meaning(v)?))).collect()),
    })
}
fn json(run: &mut Run) {
    let atoms = ["null", "true", "0", "-0.0", "0.0", "1", "-1", "1.0", "-1.0", "1.5", "1e3", "-2.5e3", "-1e3", "1e37", "9.9e37", "1e38", "-1e38", "-1e39", "1e300", "1e-310", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "\"a\"", "\"\"", "\"\\u00e9\\n\"", "\"1\""];
    fn tree(c: &mut Ch, atoms: &[&str], depth: usize) -> String {
        match if depth == 0 { 0 } else { c.pick(3) } {
            0 => c.of(atoms).to_string(),
            1 => {
                let n = c.pick(3);
                format!("[{}]", (0..n).map(|_| tree(c, if depth == 2 && n == 2 { &atoms[..6] } else { atoms }, depth - 1)).collect::<Vec<_>>().join(","))
            }
            _ => {
                let keys = c.of(&[&[][..], &["a"], &["a", "b"], &["a", "a"], &[""]]);
                format!("{{{}}}", keys.iter().map(|k| format!("\"{k}\":{}", tree(c, if depth == 2 && keys.len() == 2 { &atoms[..6] } else { atoms }, depth - 1))).collect::<Vec<_>>().join(","))
            }
        }
    }
    explore(run, "JSON", |c| {
        let t = tree(c, &atoms, 2);
        c.op(|| t.clone());
        c.ops(1);
        let j: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("{e}"))?;
        let want = json_meaning(&j);
        same!(guard(|| RadonTypes::try_from(j).ok().map(|x| V::of(&x)))?, want, "read");
        c.outcome(if want.is_some() { "read" } else { "null" });
        Ok(())
    });
}
