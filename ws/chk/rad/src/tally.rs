//! Filters, reducers, and what becomes of the reveals.
use crate::ops::{Arg, Ctx, OTHER, arg, context};
use crate::v::*;
use mc::{Run, ensure, explore, guard, same};
use sha2::{Digest, Sha256};
use witnet_data_structures::chain::tapi::{ActiveWips, all_wips_active};
use witnet_data_structures::chain::{RADFilter, RADTally};
use witnet_data_structures::radon_report::{RadonReport, ReportContext, Stage, TallyMetaData};
use witnet_rad::conditions::{construct_report_from_clause_result, evaluate_tally_postcondition_clause, evaluate_tally_precondition_clause};
use witnet_rad::error::RadError;
use witnet_rad::filters::RadonFilters;
use witnet_rad::operators::{RadonOpCodes, operate_in_context};
use witnet_rad::reducers::RadonReducers;
use witnet_rad::types::RadonTypes;

pub type R = Result<V, V>;
pub fn other() -> V {
    V::E(OTHER, vec![])
}
fn alike(l: &[V]) -> bool {
    l.windows(2).all(|w| w[0].kind() == w[1].kind())
}
/// The one that is there most often.
pub fn mode(l: &[V]) -> R {
    let count = |x: &V| l.iter().filter(|y| *y == x).count();
    let most = l.iter().map(count).max().ok_or(other())?;
    let mut best = l.iter().filter(|x| count(x) == most);
    let first = best.next().unwrap();
    if best.all(|x| x == first) { Ok(first.clone()) } else { Err(other()) }
}
fn floats(l: &[V]) -> Option<Vec<f64>> {
    l.iter()
        .map(|x| match (x, &l[0]) {
            (V::F(x), V::F(_)) => Some(*x),
            (V::I(x), V::I(_)) => Some(*x as f64),
            _ => None,
        })
        .collect()
}
fn columns(l: &[V]) -> Result<Vec<Vec<V>>, V> {
    let rows: Vec<&Vec<V>> = l.iter().map(|x| if let V::A(x) = x { Ok(x) } else { Err(other()) }).collect::<Result<_, _>>()?;
    let n = rows.first().map_or(0, |r| r.len());
    if rows.iter().any(|r| r.len() != n) {
        return Err(other());
    }
    Ok((0..n).map(|k| rows.iter().map(|r| r[k].clone()).collect()).collect())
}
fn average(l: &[f64]) -> f64 {
    l.iter().fold(0.0, |s, x| s + x) / l.len() as f64
}
fn mean(l: &[V]) -> R {
    match l.first() {
        None => Ok(V::F(f64::NAN)),
        Some(V::A(_)) => columns(l)?.iter().map(|c| mean(c)).collect::<Result<_, _>>().map(V::A),
        Some(first) => {
            let m = average(&floats(l).ok_or(other())?);
            Ok(if matches!(first, V::I(_)) { V::I(m.round() as i128) } else { V::F(m) })
        }
    }
}
fn spread(l: &[f64]) -> f64 {
    let m = average(l);
    average(&l.iter().map(|x| (x - m) * (x - m)).collect::<Vec<_>>()).sqrt()
}
fn deviation(l: &[V]) -> R {
    match l.first() {
        None => Ok(V::F(f64::NAN)),
        Some(V::A(_)) => columns(l)?.iter().map(|c| deviation(c)).collect::<Result<_, _>>().map(V::A),
        Some(_) => floats(l).map(|l| V::F(spread(&l))).ok_or(other()),
    }
}
fn median(l: &[V]) -> R {
    match l.first() {
        Some(V::I(_)) if alike(l) => {
            let mut n: Vec<i128> = l.iter().filter_map(|x| if let V::I(x) = x { Some(*x) } else { None }).collect();
            n.sort();
            let k = n.len() / 2;
            if n.len() % 2 == 1 { Ok(V::I(n[k])) } else { mean(&[V::I(n[k - 1]), V::I(n[k])]) }
        }
        Some(V::F(_)) if alike(l) => {
            let mut n: Vec<f64> = floats(l).unwrap().into_iter().filter(|x| !x.is_nan()).collect();
            n.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let k = n.len() / 2;
            match n.len() {
                0 => Err(other()),
                x if x % 2 == 1 => Ok(V::F(n[k])),
                _ => Ok(V::F(average(&n[k - 1..=k]))),
            }
        }
        _ => Err(other()),
    }
}
fn digest_of(l: &[V]) -> R {
    let parts: Option<Vec<Vec<u8>>> = l
        .iter()
        .map(|x| match (x, &l[0]) {
            (V::Y(b), V::Y(_)) => Some(b.clone()),
            (V::S(t), V::S(_)) if t.len() % 2 == 0 => (0..t.len() / 2).map(|k| t.get(2 * k..2 * k + 2).filter(|t| t.bytes().all(|c| c.is_ascii_hexdigit())).and_then(|t| u8::from_str_radix(t, 16).ok())).collect(),
            _ => None,
        })
        .collect();
    match parts {
        Some(p) if !p.is_empty() => {
            // each part is made 32 bytes long
            let all: Vec<u8> = p.iter().flat_map(|p| [vec![0; 32usize.saturating_sub(p.len())], p[..p.len().min(32)].to_vec()].concat()).collect();
            Ok(V::Y(Sha256::digest(&all).to_vec()))
        }
        _ => Err(other()),
    }
}
/// `recent`: medians and hashes are there.
pub fn reduce(code: u8, l: &[V], recent: bool) -> R {
    if !alike(l) {
        return Err(other());
    }
    match code {
        2 => mode(l),
        3 => mean(l),
        5 if recent => median(l),
        7 => deviation(l),
        0x0b if recent => digest_of(l),
        _ => Err(other()),
    }
}
/// Which of them stay.
pub fn keep(code: u8, args: &[Arg], l: &[V]) -> Result<Vec<bool>, V> {
    if !alike(l) {
        return Err(other());
    }
    match code {
        8 => {
            let m = mode(l)?;
            Ok(l.iter().map(|x| *x == m).collect())
        }
        5 => {
            let sigmas = match args {
                [Arg::X(V::I(n))] => *n as f64,
                [Arg::X(V::F(x))] => *x,
                _ => return Err(other()),
            };
            let near = |l: &[V]| -> Result<Vec<bool>, V> {
                let x = floats(l).ok_or(other())?;
                let (m, d) = (average(&x), spread(&x));
                Ok(x.iter().map(|x| *x >= m - sigmas * d && *x <= m + sigmas * d).collect())
            };
            match l.first() {
                None => Ok(vec![]),
                Some(V::A(row)) => {
                    if row.is_empty() || !alike(row) || matches!(row[0], V::A(_)) {
                        return Err(other());
                    }
                    let c: Vec<Vec<bool>> = columns(l)?.iter().map(|c| near(c)).collect::<Result<_, _>>()?;
                    // a row stays if all of it does
                    Ok((0..l.len()).map(|k| c.iter().all(|c| c[k])).collect())
                }
                Some(_) => near(l),
            }
        }
        _ => Err(other()),
    }
}
/// Those that were no liars so far are now what the filter says.
pub fn lie(liars: &mut Vec<bool>, kept: &[bool]) {
    let mut rest = kept.iter();
    if liars.is_empty() {
        *liars = kept.iter().map(|k| !k).collect();
    } else {
        liars.iter_mut().filter(|l| !**l).for_each(|l| *l = !rest.next().unwrap());
    }
}
fn tally_context(liars: &[bool], recent: bool) -> ReportContext<RadonTypes> {
    let mut x = ReportContext::from_stage(Stage::Tally(TallyMetaData { liars: liars.to_vec(), ..Default::default() }));
    x.set_active_wips(wips(recent));
    x
}
pub fn wips(recent: bool) -> ActiveWips {
    if recent { all_wips_active() } else { ActiveWips { active_wips: Default::default(), block_epoch: 0 } }
}
fn got(x: Result<RadonTypes, RadError>) -> R {
    x.map(|x| V::of(&x)).map_err(|e| V::err(&e))
}
pub fn menus() -> Vec<Vec<V>> {
    let i = |l: &[i128]| l.iter().map(|x| V::I(*x)).collect::<Vec<_>>();
    let f = |l: &[f64]| l.iter().map(|x| V::F(*x)).collect::<Vec<_>>();
    let rows = |l: &[&[i128]]| l.iter().map(|x| V::A(i(x))).collect::<Vec<_>>();
    let y = |l: &[&[u8]]| l.iter().map(|x| V::Y(x.to_vec())).collect::<Vec<_>>();
    vec![
        i(&[0, 1, 2, 5, -3, 100]),
        i(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1, 0]),
        f(&[0.0, -0.0, 1.0, 1.5, -2.5, 100.0]),
        f(&[0.1, 0.2, 0.3, 1e308, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        ["", "a", "ab", "AB", "é", "0é"].map(s).to_vec(),
        y(&[&[], &[1], &[2], &[0, 1], &[7; 32], &[7; 40]]),
        vec![V::B(true), V::B(false)],
        rows(&[&[], &[1], &[2], &[1, 2], &[1, 9], &[3, 2]]),
        vec![a(&[V::I(1), s("a")]), a(&[V::I(1), V::F(2.0)]), a(&[V::F(1.0), V::F(2.0)]), a(&[V::F(5.0), V::F(2.0)]), a(&[s("a"), V::I(1)]), a(&[V::I(7), V::F(-2.0)])],
        vec![a(&[a(&[V::I(1)])]), a(&[a(&[V::I(4)])]), a(&[a(&[])]), a(&[a(&[V::I(1)]), a(&[V::I(2)])]), a(&[V::I(1)])],
        vec![m(&[]), m(&[("a", V::I(1))]), m(&[("a", V::I(2))])],
        vec![V::I(1), V::F(1.0), s("1"), V::B(true), V::Y(vec![1]), a(&[V::I(1)]), m(&[("a", V::I(1))])],
        vec![V::E(0x42, vec![]), V::E(0x30, vec![V::I(404)]), V::E(0x30, vec![V::I(500)]), V::I(1)],
    ]
}

pub fn tallies(run: &mut Run) {
    let menus = menus();
    let n = run.pick(4, 5);
    let codes: Vec<u8> = run.pick(vec![0, 2, 3, 5, 7, 0x0b], (0..=0x0c).chain([0x80, 0xff]).collect());
    explore(run, "reducers", |c| {
        let menu = &menus[c.pick(menus.len())];
        let l = c.seq(menu, n);
        let (code, recent) = (c.of(&codes), c.flag());
        c.op(|| format!("{l:?} reduced by {code} recent {recent}"));
        c.ops(1);
        let x = V::A(l.clone()).rt();
        let call = (RadonOpCodes::ArrayReduce, Some(vec![serde_cbor::Value::Integer(code.into())]));
        let mut at = context(Ctx { v21: true, wip24: recent }, false);
        let r = guard(|| got(operate_in_context(x, &call, &mut at)))?;
        let want = reduce(code, &l, recent);
        same!(r, want, "result");
        if let (Ok(V::I(x)), 3 | 5) = (&want, code) {
            let n: Vec<i128> = l.iter().filter_map(|x| if let V::I(x) = x { Some(*x) } else { None }).collect();
            // up to what a float rounds
            let slack = x.abs() / (1 << 50) + 1;
            ensure!(*x >= n.iter().min().unwrap() - slack && *x <= n.iter().max().unwrap() + slack, "out of the range of the values");
        }
        c.outcome(if want.is_ok() { "value" } else { "error" });
        Ok(())
    });
    let fcodes: Vec<u8> = run.pick(vec![5, 8, 0, 0x85], (0..=9).chain(0x80..=0x89).chain([0xff]).collect());
    let one = |x: V| vec![Arg::X(x)];
    let args: Vec<Vec<Arg>> = vec![one(V::F(1.0)), one(V::I(1)), one(V::F(0.0)), one(V::F(1.2)), one(V::F(-1.0)), one(V::F(f64::NAN)), one(s("1")), vec![], vec![Arg::Null], vec![Arg::X(V::I(1)), Arg::X(V::I(1))]];
    let before: Vec<Vec<bool>> = vec![vec![], vec![true], vec![true, true]];
    explore(run, "filters", |c| {
        let menu = &menus[c.pick(menus.len())];
        let l = c.seq(menu, n);
        let (code, recent) = (c.of(&fcodes), c.flag());
        let args = if code == 5 { c.of(&args) } else { args[0].clone() };
        // liars there were before, at any place among the others
        let mut liars = vec![];
        let at = if l.is_empty() { 0 } else { c.pick(4) };
        if at > 0 {
            liars = [before[at - 1].clone(), vec![false; l.len()]].concat();
            if c.flag() {
                liars.rotate_left(1);
            }
        }
        c.op(|| format!("{l:?} filtered by {code} {args:?} liars {liars:?} recent {recent}"));
        c.ops(1);
        let x = V::A(l.clone()).rt();
        let mut given = vec![serde_cbor::Value::Integer(code.into())];
        given.extend(args.iter().map(arg));
        let mut at = tally_context(&liars, recent);
        let r = guard(|| got(operate_in_context(x, &(RadonOpCodes::ArrayFilter, Some(given)), &mut at)))?;
        let mask = keep(code, &args, &l);
        let want = mask.clone().map(|k| V::A(l.iter().zip(&k).filter(|x| *x.1).map(|x| x.0.clone()).collect()));
        same!(r, want, "result");
        if let (Ok(k), false) = (&mask, l.is_empty()) {
            lie(&mut liars, k);
        }
        let Stage::Tally(meta) = &at.stage else { return Err("another stage".into()) };
        same!(meta.liars, liars, "liars");
        if mask.is_ok() && !l.is_empty() {
            let share = liars.iter().filter(|l| !**l).count() as f32 / liars.len() as f32;
            same!(meta.consensus, share, "consensus");
        }
        c.outcome(match &mask {
            Ok(k) if k.iter().all(|k| *k) => "all stay",
            Ok(k) if !k.iter().any(|k| *k) => "none stays",
            Ok(_) => "some stay",
            Err(_) => "error",
        });
        Ok(())
    });
    // as many equal values as there can be witnesses
    explore(run, "many equal values", |c| {
        let n = c.of(&[126usize, 127, 128, 129, 254, 255, 256, 257, 300]);
        let k = c.of(&[0usize, 1, 126, 127, 128, 129]);
        let filter = c.flag();
        c.op(|| format!("{n} and {k} equal values, filter {filter}"));
        c.ops(1);
        let l: Vec<V> = (0..n).map(|_| V::I(1)).chain((0..k).map(|_| V::I(2))).collect();
        let x = V::A(l.clone()).rt();
        let call = if filter { (RadonOpCodes::ArrayFilter, Some(vec![serde_cbor::Value::Integer(8)])) } else { (RadonOpCodes::ArrayReduce, Some(vec![serde_cbor::Value::Integer(2)])) };
        let r = guard(|| got(operate_in_context(x, &call, &mut tally_context(&[], true))))?;
        let want = if n == k { Err(other()) } else { Ok(if filter { V::A(vec![V::I(if n > k { 1 } else { 2 }); n.max(k)]) } else { V::I(if n > k { 1 } else { 2 }) }) };
        same!(r, want, "result");
        c.outcome(if want.is_ok() { "a mode" } else { "a tie" });
        Ok(())
    });
    explore(run, "numbers of the filters and reducers", |c| {
        let n = c.pick(256) as u8;
        c.op(|| format!("{n:#x}"));
        c.ops(2);
        let f = ["GreaterThan", "LessThan", "Equals", "DeviationAbsolute", "DeviationRelative", "DeviationStandard", "Top", "Bottom", "Mode"];
        let negated = ["LessOrEqualThan", "GreaterOrEqualThan", "NotEquals", "NotDeviationAbsolute", "NotDeviationRelative", "NotDeviationStandard", "NotTop", "NotBottom", "NotMode"];
        let r = ["Min", "Max", "Mode", "AverageMean", "AverageMeanWeighted", "AverageMedian", "AverageMedianWeighted", "DeviationStandard", "DeviationAverageAbsolute", "DeviationMedianAbsolute", "DeviationMaximumAbsolute", "HashConcatenate"];
        let k = usize::from(n & 0x7f);
        let want = if n < 0x80 { f.get(k) } else { negated.get(k) };
        same!(RadonFilters::try_from(n).ok().map(|f| format!("{f}")), want.map(|w| format!("RadonFilters::{w}")), "filter");
        let want = r.get(usize::from(n));
        same!(RadonReducers::try_from(n).ok().map(|f| format!("{f}")), want.map(|w| format!("RadonReducers::{w}")), "reducer");
        c.outcome("a number");
        Ok(())
    });
    reveals(run);
    settled(run);
}

/// What a list of reveals is tallied as.
#[derive(Clone, Debug, PartialEq)]
struct Tally {
    result: V,
    liars: Vec<bool>,
    errors: Vec<bool>,
}
fn unnumbered(e: V) -> V {
    match e {
        V::E(OTHER, _) => V::E(0xff, vec![]),
        e => e,
    }
}
pub type Script = (Vec<(u32, Vec<Arg>)>, u32);
/// The script of the tally, or nothing if it is no script.
pub fn run_script(l: &[V], liars: &mut Vec<bool>, (filters, reducer): &Script, recent: bool) -> Option<R> {
    let known = |x: u32| matches!(x, 0..=8 | 0x80..=0x88);
    if filters.iter().any(|f| !known(f.0) || !matches!(f.0, 5 | 8)) || !matches!((reducer, recent), (2 | 3, _) | (5 | 0x0b, true)) {
        return None;
    }
    let mut l = l.to_vec();
    for (code, args) in filters {
        match keep(*code as u8, args, &l) {
            Err(e) => return Some(Err(e)),
            Ok(k) => {
                if !l.is_empty() {
                    lie(liars, &k);
                }
                l = l.into_iter().zip(k).filter(|x| x.1).map(|x| x.0).collect();
            }
        }
    }
    Some(reduce(*reducer as u8, &l, recent))
}
fn tally(reveals: &[V], minimum: f64, commits: usize, script: &Script, recent: bool, short: bool) -> Tally {
    let n = reveals.len();
    // nobody is rewarded, nobody is punished
    let nobody = |e: V| Tally { result: unnumbered(e), liars: vec![recent; n], errors: vec![true; n] };
    let low = |x: f64| V::E(0x51, vec![V::F(x), V::F(minimum)]);
    if short {
        return nobody(V::E(0x54, vec![]));
    }
    if commits == 0 {
        return nobody(V::E(0x52, vec![]));
    }
    if n == 0 {
        return nobody(V::E(0x50, vec![]));
    }
    let of = |k: u8| reveals.iter().filter(|v| v.kind() == k).count();
    let most = (0..8).map(of).max().unwrap();
    let share = most as f64 / commits as f64;
    if share < minimum {
        return nobody(low(share));
    }
    let kinds: Vec<u8> = (0..8).filter(|k| of(*k) == most).collect();
    if kinds.len() > 1 {
        return nobody(other());
    }
    if kinds[0] == 6 {
        let errors: Vec<V> = reveals.iter().filter(|v| v.kind() == 6).cloned().collect();
        let count = errors.iter().map(|x| errors.iter().filter(|y| *y == x).count()).max().unwrap();
        let share = count as f64 / if recent { commits } else { n } as f64;
        if share < minimum {
            return nobody(low(share));
        }
        return match mode(&errors) {
            Ok(e) => Tally { result: e, liars: vec![false; n], errors: vec![true; n] },
            Err(e) => nobody(e),
        };
    }
    let mut liars: Vec<bool> = reveals.iter().map(|v| v.kind() != kinds[0]).collect();
    let errors: Vec<bool> = reveals.iter().map(|v| v.kind() == 6).collect();
    let values: Vec<V> = reveals.iter().filter(|v| v.kind() == kinds[0]).cloned().collect();
    match run_script(&values, &mut liars, script, recent) {
        None if recent => nobody(V::E(0x53, vec![])),
        None => Tally { result: V::E(0x53, vec![]), liars: vec![false; n], errors: vec![] },
        Some(r) => Tally { result: r.unwrap_or_else(unnumbered), liars, errors },
    }
}
fn settle(t: Tally, minimum: f64, commits: usize) -> Tally {
    if t.result.kind() == 6 {
        return t;
    }
    let share = t.liars.iter().filter(|l| !**l).count() as f64 / commits as f64;
    if share > minimum {
        return t;
    }
    let n = t.liars.len();
    Tally { result: V::E(0x51, vec![V::F(share), V::F(minimum)]), liars: vec![true; n], errors: vec![true; n] }
}
fn of_report(r: &RadonReport<RadonTypes>) -> Result<Tally, String> {
    let Stage::Tally(meta) = &r.context.stage else { return Err("not a tally".into()) };
    Ok(Tally { result: V::of(&r.result), liars: meta.liars.clone(), errors: meta.errors.clone() })
}
fn rad(script: &Script) -> RADTally {
    RADTally {
        filters: script.0.iter().map(|(op, args)| RADFilter { op: *op, args: args.first().map_or(vec![], |x| serde_cbor::to_vec(&arg(x)).unwrap()) }).collect(),
        reducer: script.1,
    }
}
fn code(reveals: &[V], minimum: f64, commits: usize, script: &Script, recent: bool, short: bool) -> Result<(Tally, Tally), String> {
    let reports: Vec<_> = reveals.iter().map(|v| RadonReport::from_result(Ok(v.rt()), &ReportContext::default())).collect();
    let n = reports.len();
    let w = wips(recent);
    let clause = guard(|| evaluate_tally_precondition_clause(reports, minimum, commits, &w, short))?;
    let report = guard(|| construct_report_from_clause_result(clause, &rad(script), n, &w))?;
    let first = of_report(&report)?;
    let after = guard(|| evaluate_tally_postcondition_clause(report, minimum, commits))?;
    Ok((first, of_report(&after)?))
}
pub fn scripts() -> Vec<Script> {
    let dev = |x: f64| (5, vec![Arg::X(V::F(x))]);
    vec![
        (vec![(8, vec![])], 2),
        (vec![], 3),
        (vec![dev(1.0)], 3),
        (vec![], 2),
        (vec![dev(1.1), (8, vec![])], 2),
        (vec![(8, vec![]), dev(0.0)], 5),
        (vec![dev(-1.0)], 3),
        (vec![], 0x0b),
        (vec![(5, vec![])], 2),
        (vec![(0, vec![])], 2),
        (vec![(264, vec![])], 2),
        (vec![], 7),
        (vec![], 258),
    ]
}
fn reveals(run: &mut Run) {
    let menu = [V::I(1), V::I(2), V::E(0x42, vec![]), s("x"), V::E(0x30, vec![V::I(404)]), V::I(9), V::Y(vec![1])];
    let menu = &menu[..run.pick(6, 7)];
    let n = run.pick(4, 5);
    let limits = [0.51, 0.2, 0.5, 2.0 / 3.0, 1.0, 0.0];
    let scripts = scripts();
    explore(run, "tallies", |c| {
        let l = c.seq(menu, n);
        let script = c.of(&scripts);
        let commits = l.len() + c.pick(3);
        let (minimum, recent) = (c.of(&limits), c.flag());
        let short = l.len() < 2 && c.flag();
        c.op(|| format!("{l:?} of {commits}, at least {minimum}, {script:?} recent {recent} short {short}"));
        c.ops(3);
        let (first, after) = code(&l, minimum, commits, &script, recent, short)?;
        let want = tally(&l, minimum, commits, &script, recent, short);
        same!(first, want, "tally");
        let end = settle(want, minimum, commits);
        same!(after, end, "settled");
        // everybody is judged
        same!(after.liars.len(), l.len(), "liars");
        c.outcome(match &end.result {
            V::E(0x51, _) => "no consensus",
            V::E(..) if end.liars.iter().all(|l| !l) => "an error agreed upon",
            V::E(..) => "an error",
            _ if end.liars.iter().any(|l| *l) => "a value and liars",
            _ => "a value",
        });
        Ok(())
    });
}
/// What the requester and the witnesses rely on, whatever else is revealed.
fn settled(run: &mut Run) {
    let menu = [V::I(1), V::I(2), V::E(0x42, vec![]), s("x"), V::E(0x30, vec![V::I(404)])];
    let n = run.pick(5, 6);
    explore(run, "honest majorities", |c| {
        let truth = c.of(&[V::I(7), s("t"), V::E(0x70, vec![V::I(3)])]);
        let others = c.seq(&menu, n / 2);
        let honest = c.pick(n) + 1;
        let silent = c.pick(3);
        let minimum = c.of(&[0.51, 0.6, 0.75]);
        let commits = others.len() + honest + silent;
        if honest as f64 / commits as f64 <= minimum {
            return Ok(());
        }
        // all places of the honest ones among the others
        let total = honest + others.len();
        let mut l = others.clone();
        let mut at = vec![];
        for _ in 0..honest {
            let from = at.last().map_or(0, |x: &usize| x + 1);
            let k = from + c.pick(total - from - (honest - at.len() - 1));
            at.push(k);
            l.insert(k.min(l.len()), truth.clone());
        }
        c.op(|| format!("{l:?} of {commits}, at least {minimum}"));
        c.ops(1);
        let (_, t) = code(&l, minimum, commits, &(vec![(8, vec![])], 2), true, false)?;
        same!(t.result, truth, "the value of the majority");
        for (k, v) in l.iter().enumerate() {
            let fine = *v == truth;
            if truth.kind() == 6 {
                ensure!(!t.liars[k] && t.errors[k], "somebody is punished although the source fails");
            } else {
                same!(t.liars[k], !fine, "liar {k}");
                same!(t.errors[k], v.kind() == 6, "error {k}");
            }
        }
        c.outcome(if truth.kind() == 6 { "an error" } else { "a value" });
        Ok(())
    });
    let scripts: Vec<Script> = scripts().into_iter().filter(|s| s.1 != 0x0b).collect();
    explore(run, "orders of the reveals", |c| {
        let l = c.seq(&menu, n - 1);
        let p = c.perm(l.len());
        let script = c.of(&scripts);
        let commits = l.len() + c.pick(2);
        let minimum = c.of(&[0.2, 0.51]);
        c.op(|| format!("{l:?} in the order {p:?}, of {commits}, at least {minimum}, {script:?}"));
        c.ops(2);
        let (_, x) = code(&l, minimum, commits, &script, true, false)?;
        let other: Vec<V> = p.iter().map(|k| l[*k].clone()).collect();
        let (_, y) = code(&other, minimum, commits, &script, true, false)?;
        same!(y.result, x.result, "result in another order");
        same!(y.liars, p.iter().map(|k| x.liars[*k]).collect::<Vec<_>>(), "liars in another order");
        same!(y.errors, p.iter().map(|k| x.errors[*k]).collect::<Vec<_>>(), "errors in another order");
        c.outcome("another order");
        Ok(())
    });
}
