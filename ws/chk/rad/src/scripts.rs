//! From the bytes of a data request to calls, and from its sources to a value.
use crate::ops::{self, Arg, Call, Ctx, arg, i, t};
use crate::tally::*;
use crate::v::*;
use mc::{Ch, Run, ensure, explore, guard, same};
use reqwest::Reply;
use serde_cbor::Value;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use witnet_data_structures::chain::tapi::{ActiveWips, current_active_wips};
use witnet_data_structures::chain::{RADAggregate, RADFilter, RADRequest, RADRetrieve, RADTally, RADType};
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::radon_report::RadonReport;
use witnet_data_structures::witnessing::WitnessingConfig;
use witnet_rad::error::RadError;
use witnet_rad::operators::RadonOpCodes;
use witnet_rad::script::{RadonScriptExecutionSettings, create_radon_script_from_filters_and_reducer, unpack_radon_script, unpack_subscript};
use witnet_rad::types::RadonTypes;
use witnet_rad::{run_aggregation, run_paranoid_retrieval, run_retrieval, run_retrieval_report, run_retrieval_with_data, try_data_request};

/// The name of the error.
pub fn named(e: &RadError) -> String {
    format!("{e:?}").split([' ', '(', '{']).next().unwrap().to_string()
}
fn calls_of(x: &Value) -> Result<Vec<(u8, Option<Vec<Value>>)>, &'static str> {
    let Value::Array(l) = x else { return Err("ScriptNotArray") };
    let known = |n: i128| u8::try_from(n).ok().filter(|n| !ops::name(*n).is_empty());
    l.iter()
        .map(|x| match x {
            Value::Integer(n) if *n < 0 => Err("NotNaturalOperator"),
            Value::Integer(n) => known(*n).map(|n| (n, None)).ok_or("UnknownOperator"),
            Value::Array(l) => match l.split_first() {
                None => Err("NoOperatorInCompoundCall"),
                Some((Value::Integer(n), rest)) => known(*n).map(|n| (n, Some(rest.to_vec()))).ok_or("NotIntegerOperator"),
                Some(_) => Err("NotIntegerOperator"),
            },
            _ => Err("NotIntegerOperator"),
        })
        .collect()
}
type Coded = Vec<(u8, Option<Vec<Value>>)>;
fn coded(l: Vec<(RadonOpCodes, Option<Vec<Value>>)>) -> Coded {
    l.into_iter().map(|(c, a)| (c as u8, a)).collect()
}
fn pack(calls: &[Call]) -> Vec<u8> {
    let one = |(code, args): &Call| match args {
        None => Value::Integer((*code).into()),
        Some(l) => Value::Array(std::iter::once(Value::Integer((*code).into())).chain(l.iter().map(arg)).collect()),
    };
    serde_cbor::to_vec(&Value::Array(calls.iter().map(one).collect())).unwrap()
}
fn unpacked(run: &mut Run) {
    let n = |x: i128| Value::Integer(x);
    let l = |x: &[Value]| Value::Array(x.to_vec());
    let text = |x: &str| Value::Text(x.into());
    let menu: Vec<Value> = vec![
        n(0x10), n(0x00), n(0x77), n(0x12), n(0xff), n(-1), n(-0x77), n(256), n(0x200), n(u64::MAX as i128), text("a"), Value::Null, Value::Bool(true), Value::Float(16.0), Value::Bytes(vec![0x77]), Value::Map(BTreeMap::new()),
        l(&[]), l(&[n(0x67), text("k")]), l(&[n(0x67)]), l(&[n(0x43), n(5), n(6)]), l(&[n(0x12)]), l(&[n(256), n(1)]), l(&[n(0x143), n(1)]), l(&[n(-1)]), l(&[text("k")]), l(&[Value::Float(67.0)]), l(&[l(&[n(0x67)])]), l(&[n(0x1a), l(&[n(0x77), l(&[n(0x67), text("x")])])]), l(&[n(0x7b), Value::Map([(text("a"), text("b"))].into())]), l(&[n(0x7c), Value::Null, n(3)]),
    ];
    // the low bytes of these numbers are operators; 256 and 0x200 have the one that does nothing
    let low = |x: &Value| matches!(x, Value::Integer(n) if *n > 255);
    let sure: Vec<Value> = menu.iter().filter(|x| !low(x)).cloned().collect();
    let tops = [n(0x77), text("a"), Value::Null, Value::Bytes(vec![0x80]), Value::Map(BTreeMap::new())];
    let most = run.pick(3, 4);
    explore(run, "scripts from bytes", |c| {
        let at = c.pick(tops.len() + 1);
        let v = if at > 0 { tops[at - 1].clone() } else { Value::Array(c.seq(&sure, most)) };
        c.op(|| format!("{v:?}"));
        c.ops(2);
        let b = serde_cbor::to_vec(&v).unwrap();
        let r = guard(|| unpack_radon_script(&b).map(coded).map_err(|e| named(&e)))?;
        let want = calls_of(&v).map_err(str::to_string);
        same!(r, want, "script");
        if let Value::Array(_) = &v {
            let r = guard(|| unpack_subscript(&v).map(coded).map_err(|e| named(&e)))?;
            same!(r, want, "subscript");
        }
        // no strict part of it is a script
        for k in 0..b.len() {
            let r = guard(|| unpack_radon_script(&b[..k]).map(coded).map_err(|e| named(&e)))?;
            same!(r, Err("BufferIsNotValue".to_string()), "the first {k} bytes");
        }
        c.outcome(if want.is_ok() { "a script" } else { "no script" });
        Ok(())
    });
    explore(run, "operators beyond one byte", |c| {
        let code = c.pick(256) as i128;
        let high = c.of(&[0i128, 1, 2, 255, 256, 1 << 24, (1 << 56) - 1]);
        let nested = c.flag();
        let x = n(high * 256 + code);
        c.op(|| format!("{x:?} nested {nested}"));
        c.ops(1);
        let v = if nested { l(&[l(&[x])]) } else { l(&[x]) };
        let b = serde_cbor::to_vec(&v).unwrap();
        let r = guard(|| unpack_radon_script(&b).map(coded).map_err(|e| named(&e)))?;
        let want = calls_of(&v).map_err(str::to_string);
        if !nested && high > 0 && matches!(&r, Ok(l) if *l == [(code as u8, None)]) {
            c.outcome("taken for the operator in its low byte");
            return Err("a number beyond one byte is taken for the operator in its low byte".into());
        }
        same!(r, want, "script");
        c.outcome(if want.is_ok() { "a script" } else { "no script" });
        Ok(())
    });
    let all: Vec<u8> = (0..=255).collect();
    let short = run.pick(2, 3);
    let some: Vec<u8> = [0x00, 0x10, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x20, 0x3b, 0x40, 0x5b, 0x60, 0x62, 0x80, 0x81, 0x82, 0x83, 0x9f, 0x9b, 0xa0, 0xa1, 0xbf, 0xc0, 0xd8, 0x27, 0xe0, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfb, 0xff, 0x43, 0x77].to_vec();
    explore(run, "any bytes", |c| {
        let b = if c.flag() { c.seq(&some, short + 2) } else { c.seq(&all, short.min(2)) };
        c.op(|| format!("{b:02x?}"));
        c.ops(3);
        let r = guard(|| unpack_radon_script(&b).is_ok())?;
        if r {
            // what is a script is a list, perhaps one with a tag
            ensure!(matches!(b[0] >> 5, 4 | 6), "a script that is not a list");
        }
        let f = RADFilter { op: 5, args: b.clone() };
        guard(|| create_radon_script_from_filters_and_reducer(&[f], 3, &current_active_wips()).is_ok())?;
        c.outcome(if r { "a script" } else { "no script" });
        Ok(())
    });
}
/// Medians and hashes came at an epoch.
fn since(epoch: u32) -> ActiveWips {
    ActiveWips { active_wips: [("WIP0017-0018-0019".to_string(), 10)].into(), block_epoch: epoch }
}
fn filtered(run: &mut Run) {
    let ops: Vec<u32> = run.pick(vec![0, 4, 5, 6, 8, 9, 0x85, 0x88, 255, 256, 261, 264, u32::MAX], (0..=300).chain([512, 65541, u32::MAX]).collect());
    let reducers: Vec<u32> = (0..=14).chain([127, 128, 255, 256, 258, 259, 261, 267, 0x1_0002, u32::MAX]).collect();
    let args: Vec<(Vec<u8>, Option<Value>)> = vec![(vec![], None), (vec![0x01], Some(Value::Integer(1))), (vec![0xf9, 0x3c, 0x00], Some(Value::Float(1.0))), (vec![0x80], Some(Value::Array(vec![]))), (vec![0xf6], Some(Value::Null))];
    let most = run.pick(2, 2);
    explore(run, "filters and a reducer", |c| {
        let k = c.pick(most + 1);
        let filters: Vec<(u32, usize)> = (0..k).map(|_| (c.of(&ops), c.pick(args.len() + 1))).collect();
        let reducer = c.of(&reducers);
        let epoch = c.of(&[9, 10, 11]);
        c.op(|| format!("{filters:?} {reducer} epoch {epoch}"));
        c.ops(1);
        let list: Vec<RADFilter> = filters.iter().map(|(op, k)| RADFilter { op: *op, args: if *k < args.len() { args[*k].0.clone() } else { vec![0x82, 0x01] } }).collect();
        let r = guard(|| create_radon_script_from_filters_and_reducer(&list, reducer, &since(epoch)).map(coded).map_err(|e| named(&e)))?;
        let want = (|| {
            let mut l: Coded = vec![];
            for (op, k) in &filters {
                match op {
                    0..=8 | 0x80..=0x88 if !matches!(op, 5 | 8) => return Err("UnsupportedFilterInAT"),
                    5 | 8 => (),
                    _ => return Err("UnknownFilter"),
                }
                let Some((_, x)) = args.get(*k) else { return Err("BufferIsNotValue") };
                l.push((0x11, Some(std::iter::once(Value::Integer((*op).into())).chain(x.clone()).collect())));
            }
            match reducer {
                2 | 3 => (),
                5 | 0x0b if epoch >= 10 => (),
                0..=0x0b => return Err("UnsupportedReducerInAT"),
                _ => return Err("UnknownReducer"),
            }
            l.push((0x1b, Some(vec![Value::Integer(reducer.into())])));
            Ok(l)
        })();
        same!(r, want.clone().map_err(str::to_string), "script");
        c.outcome(if want.is_ok() { "a script" } else { "no script" });
        Ok(())
    });
}

/// Retrieval scripts, and whether they are for bytes.
fn sources() -> Vec<(Result<Vec<Call>, &'static str>, Vec<u8>)> {
    let c = |code: u8, args: &[Arg]| (code, Some(args.to_vec()));
    let good: Vec<Vec<Call>> = vec![
        vec![],
        vec![(0x73, None)],
        vec![(0x77, None), c(0x65, &[t("a")])],
        vec![(0x74, None)],
        vec![(0x34, None)],
        vec![(0x00, None), (0x34, None)],
        vec![(0x31, None), (0x34, None)],
        vec![c(0x67, &[t("server")])],
        vec![c(0x67, &[t("date")])],
        vec![(0x68, None)],
        vec![(0x69, None)],
        vec![c(0x7c, &[i(0), i(2)])],
        vec![(0xff, None)],
    ];
    let mut l: Vec<_> = good.into_iter().map(|x| (Ok(x.clone()), pack(&x))).collect();
    l.push((Err("BufferIsNotValue"), vec![]));
    l.push((Err("ScriptNotArray"), vec![0x10]));
    l.push((Err("UnknownOperator"), vec![0x81, 0x18, 0x12]));
    l
}
const NOW: Ctx = Ctx { v21: true, wip24: true };
fn carried(r: Result<V, V>) -> V {
    r.unwrap_or_else(|e| match e {
        V::E(ops::OTHER, _) => V::E(0xff, vec![]),
        e => e,
    })
}
fn reported(x: &RadonTypes) -> V {
    match V::of(x) {
        V::E(0xff, _) => V::E(0xff, vec![]),
        e => e,
    }
}
fn alike(a: &V, b: &V) -> bool {
    let f = |x: &V| if let V::E(0xff, _) = x { V::E(0xff, vec![]) } else { x.clone() };
    f(a) == f(b)
}
type Out = Result<V, String>;
fn headers_of(x: &str) -> V {
    V::M(x.split("\r\n").filter_map(|l| l.split_once(':')).map(|(k, v)| (k.trim().to_string(), s(v.trim()))).collect())
}
fn retrieved(kind: RADType, calls: &Result<Vec<Call>, &'static str>, v: &V) -> Out {
    let v = match kind {
        RADType::Rng => return Ok(v.clone()),
        RADType::HttpGet | RADType::HttpPost => v.clone(),
        RADType::HttpHead => match v {
            V::S(x) => headers_of(x),
            _ => return Err("HttpOther".into()),
        },
        _ => return Err("UnknownRetrieval".into()),
    };
    let calls = calls.as_ref().map_err(|e| e.to_string())?;
    Ok(carried(ops::script(&v, calls, NOW)))
}
fn outcome(c: &mut Ch, x: &Out) {
    c.outcome(match x {
        Ok(V::E(..)) => "the script fails",
        Ok(_) => "a value",
        Err(_) => "no value",
    });
}
const KINDS: [RADType; 5] = [RADType::HttpGet, RADType::HttpPost, RADType::HttpHead, RADType::Rng, RADType::Unknown];
fn data(run: &mut Run) {
    let sources = sources();
    let responses: Vec<V> = ["", "12", "{\"a\":7}", "{\"b\":7}", "server: x", "server: x\r\ndate: Mon, 01 Jan 2024 10:20:30 GMT\r\n", "date:\r\nserver : a:b:c \r\nno colon\r\n: empty", "Server: x\nserver: y", "\r\n\r\n", "server: \"quoted\"", "é: ü\r\nserver: é"].iter().map(|x| s(x)).chain([V::Y(vec![1, 2, 3]), V::Y(vec![]), V::I(5), a(&[V::I(1)]), m(&[("server", s("x")), ("date", s("y"))])]).collect();
    explore(run, "retrieved data", |c| {
        let kind = c.of(&KINDS);
        let (calls, script) = &sources[c.pick(sources.len())];
        let v = &responses[c.pick(responses.len())];
        c.op(|| format!("{kind:?} {calls:?} {v:?}"));
        c.ops(1);
        let r = RADRetrieve { kind: kind.clone(), url: "http://x/".into(), script: script.clone(), body: vec![], headers: vec![] };
        let x = guard(|| run_retrieval_with_data(&r, &v.rt(), RadonScriptExecutionSettings::disable_all(), witnet_data_structures::chain::tapi::all_wips_active(), ProtocolVersion::V2_1).map(|x| reported(&x)).map_err(|e| named(&e)))?;
        let want = retrieved(kind, calls, v);
        same!(x, want, "result");
        outcome(c, &want);
        Ok(())
    });
}

fn token(x: &str) -> bool {
    !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c))
}
fn visible(x: &str) -> bool {
    x.chars().all(|c| matches!(c, ' '..='~' | '\t'))
}
#[derive(Clone, Debug)]
struct Seen {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    proxy: Option<String>,
    redirects: usize,
    timeout: Option<Duration>,
}
type Log = Arc<Mutex<Vec<Seen>>>;
/// Answers by url and proxy.
fn answer(f: impl Fn(&Seen) -> Result<Reply, String> + Send + Sync + 'static) -> Log {
    let log = Log::default();
    let out = log.clone();
    reqwest::set_local_responder(move |r| {
        let seen = Seen {
            method: r.method.to_string(),
            url: r.url.to_string(),
            headers: r.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
            body: r.body.as_bytes().unwrap_or_default().to_vec(),
            proxy: r.proxy.clone(),
            redirects: r.redirects,
            timeout: r.timeout,
        };
        let reply = f(&seen);
        log.lock().unwrap().push(seen);
        reply
    });
    out
}
fn reply(status: u16, headers: &[(&str, &str)], body: &[u8]) -> Reply {
    Reply { status, headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), body: body.to_vec() }
}
/// What a reply is for the script.
fn understood(kind: RADType, calls: &Result<Vec<Call>, &'static str>, r: &Result<Reply, String>) -> Out {
    let calls = calls.clone().map_err(str::to_string)?;
    let r = r.clone().map_err(|_| "HttpOther".to_string())?;
    if !(200..300).contains(&r.status) {
        return Err(format!("HttpStatus {}", r.status));
    }
    let v = if kind == RADType::HttpHead {
        V::M(r.headers.iter().map(|(k, v)| (k.clone(), if visible(v) { s(v.trim()) } else { s("") })).collect())
    } else if matches!(calls.first(), Some((0x30..=0x3c, _))) {
        V::Y(r.body.clone())
    } else {
        s(&String::from_utf8_lossy(&r.body))
    };
    Ok(carried(ops::script(&v, &calls, NOW)))
}
fn shown(r: Result<RadonTypes, RadError>) -> Out {
    r.map(|x| reported(&x)).map_err(|e| if let RadError::HttpStatus { status_code } = e { format!("HttpStatus {status_code}") } else { named(&e) })
}
fn now<T>(f: impl std::future::Future<Output = T>) -> T {
    futures::executor::block_on(f)
}
fn requests(run: &mut Run) {
    let sources = sources();
    let urls: [(&str, Option<&str>); 7] = [("http://a.b/c?d=e&f=g#h", Some("http://a.b/c?d=e&f=g#h")), ("https://a.b", Some("https://a.b/")), ("", None), ("not a url", None), ("http://", None), ("http://[x", None), ("HTTP://A.B/ é", Some("http://a.b/%20%C3%A9"))];
    let extra: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("X-A", "1")], vec![("x-a", "1"), ("b", "2 3")], vec![("x-a", "1"), ("X-A", "2")], vec![("User-Agent", "me")], vec![("", "1")], vec![("a b", "1")], vec![("x-a", "1"), ("ü", "1")], vec![("x", "a\r\nb: c")], vec![("x", "é")], vec![("x", "")]];
    let mut replies: Vec<Result<Reply, String>> = vec![Ok(reply(200, &[("server", "x"), ("date", "Mon, 01 Jan 2024 10:20:30 GMT")], b"12")), Ok(reply(200, &[], b"{\"a\":7}")), Ok(reply(200, &[("server", "a:b"), ("etag", "\"q\""), ("x", "é")], &[0xff, 0x31, 0xfe])), Ok(reply(200, &[("location", "https://a.b:8/c")], b"")), Err("refused".into())];
    replies.extend([201, 204, 299, 300, 301, 302, 304, 400, 404, 429, 500, 503].map(|k| Ok(reply(k, &[("server", "x")], b"12"))));
    let wide = run.thorough();
    explore(run, "requests", |c| {
        let kind = c.of(&KINDS);
        // either the request or its reply is out of the ordinary
        let part = if wide { 0 } else { 1 + c.pick(2) };
        let url = if part < 2 { &urls[c.pick(urls.len())] } else { &urls[0] };
        let headers = if part < 2 { &extra[c.pick(extra.len())] } else { &extra[1] };
        let (calls, script) = &sources[if part == 1 { [1, 4, 13][c.pick(3)] } else { c.pick(sources.len()) }];
        let r = &replies[if part == 1 { [0, 4, 13][c.pick(3)] } else { c.pick(replies.len()) }];
        let wip25 = c.flag();
        let timeout = c.of(&[None, Some(Duration::from_millis(3))]);
        c.op(|| format!("{kind:?} {} {headers:?} {calls:?} answered {r:?} wip25 {wip25} {timeout:?}", url.0));
        c.ops(1);
        let retrieve = RADRetrieve { kind: kind.clone(), url: url.0.into(), script: script.clone(), body: vec![9, 8, 7], headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() };
        let mut w = witnet_data_structures::chain::tapi::all_wips_active();
        if !wip25 {
            w.active_wips.remove("WIP0025");
        }
        let given = r.clone();
        let log = answer(move |_| given.clone());
        let x = shown(guard(|| now(run_retrieval(&retrieve, w, ProtocolVersion::V2_1, timeout)))?);
        let log = log.lock().unwrap().clone();
        if kind == RADType::Rng {
            ensure!(log.is_empty(), "a request for random bytes");
            ensure!(matches!(&x, Ok(V::Y(b)) if b.len() == 32), "random bytes: {x:?}");
            c.outcome("random bytes");
            return Ok(());
        }
        let ready = match (&kind, url.1, calls) {
            (RADType::Unknown, ..) => Err("UnknownRetrieval"),
            (_, None, _) => Err("UrlParseError"),
            (_, _, Err(e)) => Err(*e),
            _ if headers.iter().any(|(k, v)| !token(k) || !visible(v)) => Err("InvalidHttpHeader"),
            (_, Some(u), _) => Ok(u),
        };
        let want = match ready {
            Err(e) => {
                ensure!(log.is_empty(), "a request that should not have left: {log:?}");
                Err(e.to_string())
            }
            Ok(u) => {
                let [q] = &log[..] else { return Err(format!("{} requests", log.len())) };
                same!(q.url, u, "url");
                same!(q.method, match kind {
                    RADType::HttpGet => "GET",
                    RADType::HttpPost => "POST",
                    _ => "HEAD",
                }, "method");
                same!(q.body, if kind == RADType::HttpPost { vec![9, 8, 7] } else { vec![] }, "body");
                same!(q.redirects, if wip25 { 4 } else { 0 }, "redirects");
                same!(q.timeout, Some(timeout.unwrap_or(Duration::from_secs(10))), "timeout");
                same!(q.proxy, None::<String>, "proxy");
                let mut had: BTreeMap<String, String> = q.headers.iter().cloned().collect();
                same!(had.len(), q.headers.len(), "headers twice");
                let mut asked: BTreeMap<String, String> = headers.iter().map(|(k, v)| (k.to_lowercase(), v.to_string())).collect();
                if !asked.contains_key("user-agent") {
                    let agent = had.remove("user-agent").unwrap_or_default();
                    ensure!(agent.starts_with("Mozilla/5.0 ("), "user agent {agent}");
                }
                same!(had, asked, "headers");
                asked.clear();
                understood(kind, calls, r)
            }
        };
        same!(x, want, "result");
        outcome(c, &want);
        Ok(())
    });
    let chars: Vec<char> = (0..=0x17fu32).filter_map(char::from_u32).chain(['€', '😀']).collect();
    explore(run, "characters in headers", |c| {
        let ch = c.of(&chars);
        let at = c.pick(4);
        let (name, value) = match at {
            0 => (format!("{ch}"), "v".to_string()),
            1 => (format!("x{ch}y"), "v".to_string()),
            2 => ("x".to_string(), format!("{ch}")),
            _ => ("x".to_string(), format!("a{ch}b")),
        };
        c.op(|| format!("{name:?}: {value:?}"));
        c.ops(1);
        let log = answer(|_| Ok(reply(200, &[], b"12")));
        let r = RADRetrieve { kind: RADType::HttpGet, url: "http://x/".into(), script: pack(&[(0x73, None)]), body: vec![], headers: vec![(name.clone(), value.clone())] };
        let x = shown(guard(|| now(run_retrieval(&r, current_active_wips(), ProtocolVersion::V2_1, None)))?);
        let fine = token(&name) && visible(&value);
        same!(x, if fine { Ok(V::I(12)) } else { Err("InvalidHttpHeader".to_string()) }, "result");
        same!(log.lock().unwrap().len(), usize::from(fine), "requests");
        c.outcome(if fine { "fine" } else { "refused" });
        Ok(())
    });
}
fn aggregate((filters, reducer): &Script) -> RADAggregate {
    let t = tally_of((filters, reducer));
    RADAggregate { filters: t.filters, reducer: t.reducer }
}
fn tally_of((filters, reducer): (&Vec<(u32, Vec<Arg>)>, &u32)) -> RADTally {
    RADTally { filters: filters.iter().map(|(op, args)| RADFilter { op: *op, args: args.first().map_or(vec![], |x| serde_cbor::to_vec(&arg(x)).unwrap()) }).collect(), reducer: *reducer }
}
fn aggregations(run: &mut Run) {
    let (menus, scripts) = (menus(), scripts());
    let n = run.pick(3, 4);
    explore(run, "aggregations", |c| {
        let menu = &menus[c.pick(menus.len())];
        let l = c.seq(menu, n);
        let script = c.of(&scripts);
        let recent = c.flag();
        c.op(|| format!("{l:?} {script:?} recent {recent}"));
        c.ops(1);
        let x = guard(|| run_aggregation(l.iter().map(V::rt).collect(), aggregate(&script), &wips(recent)).map(|x| reported(&x)).map_err(|e| named(&e)))?;
        match run_script(&l, &mut vec![], &script, recent) {
            None => ensure!(x.is_err(), "no script, but {x:?}"),
            Some(r) => same!(x, Ok(carried(r)), "result"),
        }
        c.outcome(match x {
            Ok(V::E(..)) => "an error",
            Ok(_) => "a value",
            Err(_) => "no script",
        });
        Ok(())
    });
}
fn settings(all: bool) -> RadonScriptExecutionSettings {
    if all { RadonScriptExecutionSettings::enable_all() } else { RadonScriptExecutionSettings::disable_all() }
}
fn whole(run: &mut Run) {
    let mut sources = sources();
    sources = [1, 2, 7, 14].map(|k| sources[k].clone()).to_vec();
    let inputs = ["12", "{\"a\":7}", "7", "server: 7"];
    let scripts: Vec<Script> = [0, 1, 2, 5, 7, 9].map(|k| scripts()[k].clone()).to_vec();
    let n = run.pick(2, 3);
    explore(run, "data requests", |c| {
        let k = c.pick(n + 1);
        let l: Vec<(usize, RADType, &str)> = (0..k).map(|_| (c.pick(sources.len()), c.of(&[RADType::HttpGet, RADType::HttpHead]), c.of(&inputs))).collect();
        let (agg, tal) = (c.of(&scripts), c.of(&scripts[..4]));
        let (short, all) = (c.flag(), c.flag());
        c.op(|| format!("{:?} {agg:?} {tal:?} short {short} all {all}", l.iter().map(|(k, kind, input)| (&sources[*k].0, kind, input)).collect::<Vec<_>>()));
        c.ops(1);
        let request = RADRequest {
            time_lock: 0,
            retrieve: l.iter().map(|(k, kind, _)| RADRetrieve { kind: kind.clone(), url: "http://x/".into(), script: sources[*k].1.clone(), body: vec![], headers: vec![] }).collect(),
            aggregate: aggregate(&agg),
            tally: tally_of((&tal.0, &tal.1)),
        };
        let given: Vec<&str> = l.iter().map(|x| x.2).collect();
        let r = guard(|| try_data_request(&request, settings(all), Some(&given), None, short, None))?;
        let got: Vec<V> = r.retrieve.iter().map(|r| reported(&r.result)).collect();
        let each: Vec<V> = l.iter().map(|(k, kind, input)| retrieved(kind.clone(), &sources[*k].0, &s(input)).unwrap_or(V::E(0xfe, vec![]))).collect();
        same!(got.len(), each.len(), "sources");
        for (k, (x, w)) in got.iter().zip(&each).enumerate() {
            // an error without a value is one of the script or of the retrieval
            ensure!(x == w || (x.kind() == 6 && *w == V::E(0xfe, vec![])), "source {k}: {x:?} rather than {w:?}");
        }
        // all that is there counts
        let one = aggregated(&got, &agg, short);
        let x = reported(&r.aggregate.result);
        match &one {
            None => ensure!(x.kind() == 6, "no script, but {x:?}"),
            Some(w) => ensure!(alike(&x, w), "aggregate: {x:?} rather than {w:?}"),
        }
        let y = reported(&r.tally.result);
        match run_script(std::slice::from_ref(&V::of(&r.aggregate.result)), &mut vec![false], &tal, true) {
            None => ensure!(y.kind() == 6, "no script, but {y:?}"),
            Some(w) => {
                let w = carried(w);
                ensure!(alike(&y, &w), "tally: {y:?} rather than {w:?}")
            }
        }
        c.outcome(if y.kind() == 6 { "an error" } else { "a value" });
        Ok(())
    });
}
/// The majority of the kinds is what counts.
fn aggregated(l: &[V], script: &Script, short: bool) -> Option<V> {
    if short {
        return Some(V::E(0x54, vec![]));
    }
    if l.is_empty() {
        return Some(V::E(0x50, vec![]));
    }
    let of = |k: u8| l.iter().filter(|v| v.kind() == k).count();
    let most = (0..8).map(of).max().unwrap();
    let kinds: Vec<u8> = (0..8).filter(|k| of(*k) == most).collect();
    if kinds.len() > 1 {
        return Some(carried(Err(other())));
    }
    let values: Vec<V> = l.iter().filter(|v| v.kind() == kinds[0]).cloned().collect();
    if kinds[0] == 6 {
        return Some(carried(mode(&values)));
    }
    run_script(&values, &mut values.iter().map(|_| false).collect(), script, true).map(carried)
}
fn transports(run: &mut Run) {
    let scripts: Vec<Script> = [0, 1, 2, 3, 9].map(|k| scripts()[k].clone()).to_vec();
    let replies: Vec<Result<Reply, String>> = vec![Ok(reply(200, &[], b"12")), Ok(reply(200, &[], b"13")), Ok(reply(200, &[], b"x")), Ok(reply(404, &[], b"12")), Err("refused".into()), Ok(reply(200, &[], b"1000"))];
    let most = run.pick(3, 4);
    explore(run, "several transports", |c| {
        let n = c.pick(most + 1);
        let direct = n > 0 && c.flag();
        let l: Vec<usize> = (0..n).map(|_| c.pick(replies.len())).collect();
        let script = c.of(&scripts);
        let limit = c.of(&[0.51f32, 0.5, 0.66, 0.67, 1.0, 0.0]);
        let secure = c.flag();
        let wip25 = c.flag();
        c.op(|| format!("{:?} direct {direct} {script:?} at least {limit} secure {secure} wip25 {wip25}", l.iter().map(|k| replies[*k].as_ref().map(|r| (r.status, String::from_utf8_lossy(&r.body).into_owned()))).collect::<Vec<_>>()));
        c.ops(1);
        let through: Vec<Option<String>> = (0..n).map(|k| if k == 0 && direct { None } else { Some(format!("{}://proxy{k}:80/", ["http", "socks5"][k % 2])) }).collect();
        let config = WitnessingConfig { transports: through.iter().map(|x| x.as_ref().map(|x| x.parse().unwrap())).collect(), paranoid_threshold: limit };
        let calls: Result<Vec<Call>, &'static str> = Ok(vec![(0x73, None)]);
        let url = if secure { "https://x/" } else { "http://x/" };
        let r = RADRetrieve { kind: RADType::HttpGet, url: url.into(), script: pack(calls.as_ref().unwrap()), body: vec![], headers: vec![] };
        let (by, given, set): (Vec<usize>, _, _) = (l.clone(), replies.clone(), through.clone());
        let log = answer(move |q| match set.iter().position(|x| x.as_ref().map(|x| x.trim_end_matches(":80/").to_string()) == q.proxy.as_ref().map(|x| x.trim_end_matches('/').trim_end_matches(":80").to_string())) {
            Some(k) => given[by[k]].clone(),
            None => Err("another transport".into()),
        });
        let mut w = witnet_data_structures::chain::tapi::all_wips_active();
        if !wip25 {
            w.active_wips.remove("WIP0025");
        }
        let x = shown(guard(|| now(run_paranoid_retrieval(&r, aggregate(&script), settings(false), w, ProtocolVersion::V2_1, config, None)).map(RadonReport::into_inner))?);
        let log = log.lock().unwrap().clone();
        same!(log.len(), n, "requests");
        for (k, q) in log.iter().enumerate() {
            same!(q.proxy.is_some(), through[k].is_some(), "request {k} goes through a proxy");
            same!(q.redirects, if wip25 { 4 } else { 0 }, "redirects");
        }
        let each: Vec<Out> = l.iter().map(|k| understood(RADType::HttpGet, &calls, &replies[*k])).collect();
        let torn = Err("InconsistentSource".to_string());
        let want = match &each[..] {
            [] => torn,
            [one] => one.clone(),
            _ if each.iter().any(|x| x.is_err()) => torn,
            _ => {
                // errors of the source are not those of the aggregation
                let own = |v: V| if v == V::E(0xff, vec![]) { V::E(0xff, vec![s("source")]) } else { v };
                let values: Vec<V> = each.iter().map(|x| own(x.clone().unwrap())).collect();
                let mut liars = vec![];
                match run_script(&values, &mut liars, &script, true) {
                    None => torn,
                    Some(v) => {
                        let v = carried(v);
                        let share = if liars.is_empty() { 1.0 } else { liars.iter().filter(|l| !**l).count() as f32 / liars.len() as f32 };
                        // an error that all of them have is what the source says
                        if (v.kind() == 6 && !values.contains(&v)) || share < limit { torn } else if v.kind() == 6 { Ok(V::E(0xff, vec![])) } else { Ok(v) }
                    }
                }
            }
        };
        same!(x, want, "result");
        c.outcome(match &want {
            Ok(V::E(..)) => "an error",
            Ok(_) => "a value",
            Err(e) if e == "InconsistentSource" => "inconsistent",
            Err(_) => "no value",
        });
        Ok(())
    });
    // a random number needs no transport
    explore(run, "random bytes", |c| {
        let n = c.pick(3);
        c.op(|| format!("{n} transports"));
        c.ops(2);
        let log = answer(|_| Err("refused".into()));
        let config = WitnessingConfig { transports: (0..n).map(|k| Some(format!("http://proxy{k}/").parse().unwrap())).collect(), paranoid_threshold: 1.0 };
        let r = RADRetrieve { kind: RADType::Rng, url: "".into(), script: vec![0x80], body: vec![], headers: vec![] };
        let mut l = vec![];
        for _ in 0..2 {
            let w = witnet_data_structures::chain::tapi::all_wips_active();
            let x = guard(|| now(run_paranoid_retrieval(&r, aggregate(&(vec![], 0x0b)), settings(true), w.clone(), ProtocolVersion::V2_1, config.clone(), None)).map(|x| reported(&x.result)).map_err(|e| named(&e)))??;
            ensure!(matches!(&x, V::Y(b) if b.len() == 32), "{x:?}");
            l.push(x);
            let y = guard(|| now(run_retrieval_report(&r, settings(true), w, ProtocolVersion::V2_1, None, None)).map(|x| reported(&x.result)).map_err(|e| named(&e)))??;
            l.push(y);
        }
        ensure!((0..4).all(|a| (0..a).all(|b| l[a] != l[b])), "the same random bytes again");
        ensure!(log.lock().unwrap().is_empty(), "a request");
        c.outcome("random bytes");
        Ok(())
    });
}
pub fn retrievals(run: &mut Run) {
    unpacked(run);
    filtered(run);
    data(run);
    requests(run);
    aggregations(run);
    whole(run);
    transports(run);
}
