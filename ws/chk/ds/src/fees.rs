//! C46: amounts, fees and priorities.
use mc::{Ch, Run, System, bfs, ensure, explore, fp, same};
use num_traits::{Zero, ops::saturating::Saturating};
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Mutex;
use std::time::Duration;
use witnet_data_structures::chain::priority::*;
use witnet_data_structures::fee::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::visitor::{StatefulVisitor, Visitor};
use witnet_data_structures::wit::*;

fn edges() -> Vec<u64> {
    let mut v = BTreeSet::new();
    for k in 0..20u32 {
        let p = 10u64.pow(k);
        for x in [p - 1, p, p + 1, 5 * (p / 10), 9 * (p / 10), p.saturating_mul(2), p.wrapping_mul(7) % 1_000_000_007_000] {
            v.insert(x);
        }
    }
    for k in 0..64u32 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([123_456_789, 1_234_567_890, 250_000_000_000_000, 2_500_000_000_000_000_000, u64::MAX, u64::MAX - 1]);
    v.into_iter().collect()
}

fn amounts(run: &mut Run) {
    let e = edges();
    let e = &e;
    explore(run, "amounts", |c: &mut Ch| {
        let a = c.of(e);
        let w = Wit::from_nanowits(a);
        same!((w.nanowits(), u64::from(w), Wit::from(a)), (a, a, w), "{a}");
        same!(w.wits_and_nanowits(), (a / 1_000_000_000, a % 1_000_000_000), "the parts of {a}");
        let text = w.to_string();
        let Some((whole, part)) = text.split_once('.') else { return Err(format!("{a} reads {text}")) };
        same!(part.len(), 9, "decimals of {text}");
        ensure!(whole == "0" || !whole.starts_with('0'), "{a} reads {text}");
        same!(format!("{whole}{part}").parse::<u128>().ok(), Some(u128::from(a)), "what {text} says");
        same!(serde_json::to_string(&w).ok(), Some(a.to_string()), "{a} in JSON");
        same!(serde_json::from_str::<Wit>(&a.to_string()).ok(), Some(w), "{a} out of JSON");
        same!(w.is_zero(), a == 0, "whether {a} is nothing");
        for k in 0..20u8 {
            same!(w.lose_precision(k).nanowits(), a / 10u64.pow(u32::from(k)), "{a} without {k} digits");
        }
        for b in e {
            let v = Wit::from_nanowits(*b);
            let wide = |x: u128| u64::try_from(x).ok();
            if let Some(x) = wide(u128::from(a) + u128::from(*b)) {
                same!((w + v).nanowits(), x, "{a} + {b}");
                same!([w, v].into_iter().sum::<Wit>().nanowits(), x, "the sum of {a} and {b}");
            }
            if let Some(x) = wide(u128::from(a) * u128::from(*b)) {
                same!((w * v).nanowits(), x, "{a} * {b}");
            }
            if a >= *b {
                same!((w - v).nanowits(), a - b, "{a} - {b}");
            }
            if *b != 0 {
                same!((w / v).nanowits(), a / b, "{a} / {b}");
                same!((w % v).nanowits(), a % b, "{a} % {b}");
            }
            same!(Saturating::saturating_add(w, v).nanowits(), a.saturating_add(*b), "{a} + {b}, at most");
            same!(Saturating::saturating_sub(w, v).nanowits(), a.saturating_sub(*b), "{a} - {b}, at least nothing");
            same!(w.cmp(&v), a.cmp(b), "the order of {a} and {b}");
            if let Ok(n) = u32::try_from(*b) {
                if let Some(x) = wide(u128::from(a) * u128::from(n)) {
                    same!(u64::from(w * n), x, "the power of {a} at age {n}");
                }
            }
        }
        if a <= u64::MAX / 1_000_000_000 {
            same!(Wit::from_wits(a).nanowits(), a * 1_000_000_000, "{a} wits");
        } else {
            ensure!(mc::guard(|| Wit::from_wits(a)).is_err(), "{a} wits are {:?}", Wit::from_wits(a));
        }
        c.ops(e.len() as u64 * 10);
        Ok(())
    });
}

#[derive(Deserialize, serde::Serialize, PartialEq, Debug)]
struct Params {
    #[serde(deserialize_with = "deserialize_fee_backwards_compatible")]
    fee: Fee,
}

fn fees(run: &mut Run) {
    // every way to write a fee, and what it means
    let numbers: &[(&str, Option<u64>, Option<f64>)] = &[
        ("0", Some(0), Some(0.0)),
        ("1", Some(1), Some(1.0)),
        ("123", Some(123), Some(123.0)),
        ("123.5", None, Some(123.5)),
        ("0.25", None, Some(0.25)),
        ("1e3", None, Some(1000.0)),
        ("9007199254740993", Some(9_007_199_254_740_993), Some(9_007_199_254_740_992.0)),
        ("18446744073709551615", Some(u64::MAX), Some(18_446_744_073_709_551_616.0)),
        ("18446744073709551616", None, Some(18_446_744_073_709_551_616.0)),
        ("-1", None, Some(-1.0)),
    ];
    let junk = ["", "x", "1 ", " 1", "0x10", "1,5", "--1", "1.2.3"];
    explore(run, "fees as text", |c: &mut Ch| {
        let form = c.pick(8);
        let (json, want): (String, Option<Fee>) = if c.flag() {
            let j = c.of(&junk);
            match form {
                0 => (format!("\"{j}\""), None),
                1 => (format!("{{\"absolute\":\"{j}\"}}"), None),
                2 => (format!("{{\"relative\":\"{j}\"}}"), None),
                3 => ("null".into(), None),
                4 => ("[1]".into(), None),
                5 => ("{}".into(), None),
                6 => ("{\"other\":1}".into(), None),
                _ => ("{\"absolute\":null}".into(), None),
            }
        } else {
            let (n, int, float) = c.of(numbers);
            let abs = int.map(Fee::absolute_from_nanowits);
            let rel = float.map(Fee::relative_from_float);
            match form {
                0 => (n.to_string(), abs),
                1 => (format!("\"{n}\""), abs),
                2 => (format!("{{\"absolute\":{n}}}"), abs),
                3 => (format!("{{\"absolute\":\"{n}\"}}"), abs),
                4 => (format!("{{\"relative\":{n}}}"), rel),
                5 => (format!("{{\"relative\":\"{n}\"}}"), rel),
                6 => (format!("{{ \"relative\" : {n} }}"), rel),
                _ => (format!("{{\"Absolute\":{n}}}"), None),
            }
        };
        c.op(|| json.clone());
        let got = serde_json::from_str::<Params>(&format!("{{\"fee\":{json}}}")).ok().map(|p| p.fee);
        same!(got, want, "the fee {json}");
        c.outcome(match got {
            Some(Fee::Absolute(_)) => "absolute",
            Some(Fee::Relative(_)) => "relative",
            None => "refused",
        });
        if let Some(f) = got {
            // what is written is read back
            let text = serde_json::to_string(&Params { fee: f }).map_err(|e| e.to_string())?;
            same!(serde_json::from_str::<Params>(&text).ok(), Some(Params { fee: f }), "{text} read back");
            same!(serde_json::from_value::<Fee>(serde_json::to_value(f).unwrap()).ok(), Some(f), "{text} read strictly");
            same!(bincode::deserialize::<Fee>(&bincode::serialize(&f).unwrap()).ok(), Some(f), "{text} in binary");
        }
        Ok(())
    });
    explore(run, "fees out of priorities", |c: &mut Ch| {
        // priorities that are exact: n / 2^k
        let k = c.pick(12) as u32;
        let n = c.of(&[0u64, 1, 2, 3, 5, 7, 9, 100, 511, 1023, 4097, 65_535, 1_000_001]);
        let p = Priority::from(n as f64 / f64::from(1u32 << k));
        let Fee::Relative(r) = Fee::relative_from_float(p.as_f64()) else { return Err("a relative fee is not".into()) };
        let mut before = 0;
        for w in [0u32, 1, 2, 3, 7, 100, 493, 625, 4095, 4096, 4097, 20_000, 80_000, 100_000, 1_000_000, u32::MAX] {
            let want = (u128::from(n) * u128::from(w)) >> k;
            same!(u128::from(p.derive_fee_wit(w).nanowits()), want, "the fee of weight {w} at {n}/2^{k}");
            same!(u128::from(r.into_absolute(w).as_nanowits()), want, "the fee of weight {w} at {n}/2^{k}");
            same!(u128::from(r.into_absolute(w).into_inner().nanowits()), want, "the fee of weight {w} at {n}/2^{k}");
            ensure!(want >= before, "a heavier transaction pays less");
            before = want;
            // the priority of a fee pays that fee again, but for what rounding takes
            if w > 0 {
                let fee = u64::try_from(want).unwrap();
                let back = Priority::from_absolute_fee_weight(fee, w).derive_fee_wit(w).nanowits();
                ensure!(back == fee || back + 1 == fee, "fee {fee} of weight {w} has a priority that pays {back}");
                ensure!(Priority::from_absolute_fee_weight(fee, w) <= p, "fee {fee} of weight {w} has a higher priority than it was made from");
            }
            c.ops(1);
        }
        let q = Priority::from(f64::from(c.of(&[0u32, 1, 5]))); 
        same!((p + q).as_f64(), p.as_f64() + q.as_f64(), "the sum");
        same!(p.cmp(&q), p.as_f64().partial_cmp(&q.as_f64()).unwrap(), "the order");
        same!(serde_json::from_str::<Priority>(&serde_json::to_string(&p).unwrap()).ok(), Some(p), "the priority in JSON");
        same!(p.is_zero(), n == 0, "whether it is nothing");
        Ok(())
    });
}

fn transaction(kind: usize) -> Transaction {
    match kind {
        0 => Transaction::DataRequest(DRTransaction::default()),
        1 => Transaction::ValueTransfer(VTTransaction::default()),
        2 => Transaction::Stake(StakeTransaction::default()),
        3 => Transaction::Unstake(UnstakeTransaction::default()),
        4 => Transaction::Mint(MintTransaction::default()),
        5 => Transaction::Tally(TallyTransaction::default()),
        _ => Transaction::Commit(CommitTransaction::default()),
    }
}

/// The highest and the lowest priority of each kind.
fn read(p: &Priorities) -> [(f64, Option<f64>); 4] {
    [(p.drt_highest, p.drt_lowest), (p.vtt_highest, p.vtt_lowest), (p.st_highest, p.st_lowest), (p.ut_highest, p.ut_lowest)].map(|(h, l)| (h.as_f64(), l.map(|l| l.as_f64())))
}

fn blocks(run: &mut Run) {
    let n = run.pick(5, 6);
    explore(run, "priorities of a block", |c: &mut Ch| {
        let menu = [(0usize, 0u64, 100u32), (0, 300, 100), (0, 300, 200), (0, 700, 100), (1, 0, 50), (1, 300, 100), (1, 100, 50), (2, 5, 1), (2, 0, 1), (2, 4, 2), (3, 9, 3), (3, 0, 5), (3, 1, 3), (4, 77, 1), (5, 77, 1), (6, 77, 1)];
        let txs = c.seq(&menu, n);
        let mut v = PriorityVisitor::default();
        let mut want = [(0f64, None::<f64>); 4];
        for (kind, fee, weight) in &txs {
            v.visit(&(transaction(*kind), *fee, *weight));
            let p = *fee as f64 / f64::from(*weight);
            if *kind < 4 {
                let w = &mut want[*kind];
                w.0 = w.0.max(p);
                // transactions that pay nothing do not count
                if p != 0.0 {
                    w.1 = Some(w.1.map_or(p, |l| l.min(p)));
                }
            }
        }
        c.op(|| format!("{txs:?}"));
        let got = v.take_state();
        same!(read(&got), want, "the priorities of (kind, fee, weight) {txs:?}");
        same!(bincode::deserialize::<Priorities>(&bincode::serialize(&got).unwrap()).ok(), Some(got.clone()), "priorities stored and read");
        c.outcome(&format!("{} kinds", want.iter().filter(|w| w.0 > 0.0).count()));
        Ok(())
    });
}

fn entry(i: u64) -> Priorities {
    let mut p = Priorities::default();
    p.digest_drt_priority(Priority::from(i + 1));
    p.digest_vtt_priority(Priority::from(2 * i + 1));
    p
}

struct Window {
    capacity: usize,
}
#[derive(Clone)]
struct Seen {
    engine: PriorityEngine,
    spec: VecDeque<u64>,
    next: u64,
}
impl System for Window {
    type S = Seen;
    type A = bool;
    fn init(&self) -> Vec<Seen> {
        let mut v = vec![Seen { engine: PriorityEngine::with_capacity(self.capacity), spec: VecDeque::new(), next: 0 }];
        for n in 0..self.capacity as u64 + 3 {
            // newest first
            let engine = PriorityEngine::from_vec_with_capacity((0..n).rev().map(entry).collect(), self.capacity);
            v.push(Seen { engine, spec: (0..n).rev().take(self.capacity).collect(), next: n });
        }
        v
    }
    fn actions(&self, _: &Seen) -> Vec<bool> {
        vec![true]
    }
    fn step(&self, s: &mut Seen, _: &bool) -> Result<(), String> {
        s.engine.push_priorities(entry(s.next));
        s.spec.push_front(s.next);
        s.spec.truncate(self.capacity);
        s.next += 1;
        Ok(())
    }
    fn key(&self, s: &Seen) -> u128 {
        fp(&(s.spec.iter().collect::<Vec<_>>(), s.next))
    }
    fn check(&self, s: &Seen) -> Result<(), String> {
        // oldest first
        same!(s.engine.as_vec(), s.spec.iter().rev().map(|i| entry(*i)).collect::<Vec<_>>(), "the last {} blocks", self.capacity);
        Ok(())
    }
}

fn tiers(e: &PrioritiesEstimate) -> [[(f64, String); 5]; 4] {
    let f = |x: &PriorityEstimate| (x.priority.as_f64(), x.time_to_block.to_string());
    [
        [&e.drt_stinky, &e.drt_low, &e.drt_medium, &e.drt_high, &e.drt_opulent].map(f),
        [&e.vtt_stinky, &e.vtt_low, &e.vtt_medium, &e.vtt_high, &e.vtt_opulent].map(f),
        [&e.st_stinky, &e.st_low, &e.st_medium, &e.st_high, &e.st_opulent].map(f),
        [&e.ut_stinky, &e.ut_low, &e.ut_medium, &e.ut_high, &e.ut_opulent].map(f),
    ]
}

fn estimates(run: &mut Run) {
    // per kind of transaction and what its blocks were: the estimate, which nothing else may change
    let memo: Mutex<BTreeMap<(u64, Vec<usize>), Vec<u64>>> = Mutex::default();
    let sets: &[&[f64]] = &[&[0.0, 3.0, 50.0], &[0.05, 0.25, 0.45], &[1.0, 1000.0, 1_000_000.0]];
    let (lo, hi) = run.pick((18, 26), (17, 40));
    explore(run, "estimates", |c: &mut Ch| {
        let set = c.pick(sets.len());
        let menu = sets[set];
        let total = lo + c.pick(hi - lo + 1);
        let a = c.pick(total + 1);
        let b = c.pick(total - a + 1);
        let counts = [a, b, total - a - b];
        let turn = c.pick(3);
        let secs = c.of(&[45u64, 20, 3600]);
        // the blocks, beginning at another one for each kind of transaction
        let list = |turn: usize| -> Vec<f64> {
            let mut v: Vec<f64> = vec![];
            let mut left = counts;
            let mut i = turn;
            while v.len() < total {
                if left[i % 3] > 0 {
                    left[i % 3] -= 1;
                    v.push(menu[i % 3]);
                }
                i += 1 + turn;
                if (1 + turn) % 3 == 0 {
                    i += 1;
                }
            }
            v
        };
        let rows: Vec<Vec<f64>> = (0..4).map(|k| list((turn + k) % 3)).collect();
        let mut engine = PriorityEngine::default();
        for i in 0..total {
            let mut p = Priorities::default();
            p.digest_drt_priority(Priority::from(rows[0][i]));
            p.digest_vtt_priority(Priority::from(rows[1][i]));
            p.digest_st_priority(Priority::from(rows[2][i]));
            p.digest_ut_priority(Priority::from(rows[3][i]));
            // what pays more than the least does not matter
            p.digest_vtt_priority(Priority::from(rows[1][i] * 7.0));
            engine.push_priorities(p);
        }
        c.op(|| format!("{counts:?} blocks of {menu:?}, every {secs} s"));
        let got = engine.estimate_priority(Duration::from_secs(secs));
        if total < 20 {
            let want = Err(PriorityError::NotEnoughSampledEpochs { current: total as u32, required: 20, wait_minutes: ((20 - total as u64) * secs / 60 + 1) as u32 });
            same!(got, want, "an estimate over {total} blocks");
            c.outcome("too few blocks");
            return Ok(());
        }
        let got = got.map_err(|e| e.to_string())?;
        let least = [0.1, 0.2, 0.3, 0.4, 0.5];
        let times = ["6h", "1h", "15m", "5m", "1m"];
        let present: Vec<f64> = menu.iter().zip(counts).filter(|(_, n)| *n > 0).map(|(p, _)| *p).collect();
        let (min, max) = (present[0], present[present.len() - 1]);
        for (kind, t) in tiers(&got).iter().enumerate() {
            for i in 0..5 {
                let (p, time) = &t[i];
                same!(time, times[i], "the time of tier {i}");
                ensure!(*p >= least[i], "tier {i} of kind {kind} is {p}, below the default");
                ensure!(*p == least[i] || (*p >= min && *p <= max * (1.0 + 1e-9)), "tier {i} of kind {kind} is {p}, outside {min}..{max}");
                ensure!(i == 0 || *p >= t[i - 1].0, "tier {i} of kind {kind} is {p}, below the slower tier's {}", t[i - 1].0);
                if present.len() == 1 {
                    same!(*p, min.max(least[i]), "tier {i} where every block has the same");
                }
            }
            let mut key = counts.to_vec();
            key.push(set);
            let v: Vec<u64> = t.iter().map(|x| x.0.to_bits()).collect();
            let mut memo = memo.lock().unwrap();
            let first = memo.entry((secs, key)).or_insert_with(|| v.clone());
            same!(v, *first, "kind {kind} of {counts:?} blocks of {menu:?}, in another order or of another kind");
        }
        c.outcome("estimated");
        Ok(())
    });
}

pub fn fee(run: &mut Run) {
    amounts(run);
    fees(run);
    blocks(run);
    for k in [1, 2, 3, 8] {
        bfs(run, &format!("window of {k}"), &Window { capacity: k }, 12, 10_000);
    }
    estimates(run);
}
