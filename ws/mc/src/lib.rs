//! A small model checker for real Rust code.
//!
//! * `bfs`: explicit-state breadth-first search. Every transition calls the code under test on a clone
//!   of the state; states are deduplicated by a canonical fingerprint; afterwards paths are executed
//!   again from the initial state on a fresh instance and must reproduce the same fingerprint.
//! * `explore`: stateless search. The harness draws every choice (operation, argument, fault, schedule)
//!   from `Ch`; the explorer runs the harness once for every combination of choices.
//!
//! Both stop at the first violation that is not listed in known-findings, write it as a replayable file
//! and print `VIOLATION property=<id> replay=<path>`.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub mod util;

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// 128-bit fingerprint with fixed keys.
pub fn fp<T: Hash + ?Sized>(x: &T) -> u128 {
    #[allow(deprecated)]
    let (mut a, mut b) = (std::hash::SipHasher::new_with_keys(1, 2), std::hash::SipHasher::new_with_keys(3, 4));
    x.hash(&mut a);
    x.hash(&mut b);
    (a.finish() as u128) << 64 | b.finish() as u128
}

/// Runs `f`; a panic becomes an `Err` with its message and place.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into())))
}

/// `Err(format!(..))` unless the condition holds.
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }
/// Compares what the code did with what the model says.
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => { match (&$a, &$b) { (a, b) => if a != b { return Err(format!("{}: code says {:?}, specification says {:?}", format!($($t)*), a, b)); } } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    states: u64,
    transitions: u64,
    traces: u64,
    samples: Vec<String>,
    harnesses: Vec<serde_json::Value>,
    outcomes: BTreeMap<String, u64>,
    exhaustive: bool,
    pub assumptions: Vec<String>,
    known: Vec<(String, String)>,
    known_seen: BTreeSet<String>,
    violation: Option<String>,
    replay: Option<serde_json::Value>,
    budget: Duration,
}

/// What went wrong, with everything needed to do it again.
pub struct Bad {
    pub harness: String,
    pub choices: Vec<usize>,
    pub log: Vec<String>,
    pub msg: String,
}

fn root() -> PathBuf {
    let p = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").into()));
    p.canonicalize().unwrap_or(p)
}

impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// The bound for this tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }
    fn left(&self) -> Duration {
        self.budget.saturating_sub(self.start.elapsed())
    }
    fn is_known(&mut self, msg: &str) -> bool {
        for (sig, text) in self.known.clone() {
            if msg.contains(&sig) {
                if self.known_seen.insert(sig) {
                    println!("KNOWN-FINDING: property={} {}", self.id, text);
                }
                return true;
            }
        }
        false
    }
    fn report(&mut self, b: Bad) {
        if self.violation.is_some() {
            return;
        }
        let dir = root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.id, b.harness.replace(|c: char| !c.is_alphanumeric(), "_")));
        let v = serde_json::json!({ "property": self.id, "harness": b.harness, "tier": format!("{:?}", self.tier), "choices": b.choices, "trace": b.log, "message": b.msg });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("{} [{}]: {}", self.id, b.harness, b.msg);
        for l in &b.log {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={}", self.id, path.display());
        self.violation = Some(b.msg);
    }
    /// Adds the result of a search made by another engine.
    pub fn record(&mut self, name: &str, kind: &str, executions: u64, operations: u64, states: u64, complete: bool, samples: &[String], outcomes: &[(String, u64)]) {
        self.states += states;
        self.transitions += operations;
        self.traces += executions;
        self.exhaustive &= complete;
        for (k, v) in outcomes {
            *self.outcomes.entry(format!("{name}: {k}")).or_default() += v;
        }
        for s in samples.iter().take(2) {
            self.sample(format!("{name}: {s}"));
        }
        self.harnesses.push(serde_json::json!({ "name": name, "kind": kind, "executions": executions, "operations": operations, "distinct_states": states, "completed": complete }));
    }
    /// A violation found by another engine.
    pub fn fail(&mut self, name: &str, log: Vec<String>, msg: String) {
        if !self.is_known(&msg) {
            self.report(Bad { harness: name.into(), choices: vec![], log, msg });
        }
    }
    /// Whether everything so far was enumerated to its end (not replayed, filtered, or cut short).
    pub fn enumerated(&self) -> bool {
        self.exhaustive && self.replay.is_none() && std::env::var("MC_ONLY").is_err()
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
    fn evidence(&self) {
        let v = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples,
                "exhaustive": self.exhaustive,
                "harnesses": self.harnesses,
                "outcomes": self.outcomes,
                "explanation": "Every transition is executed on the code in /repo. states: distinct canonical states; transitions: operations executed; traces_validated_against_impl: complete executions from an initial state on a fresh instance and compared with the specification.",
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violation.is_some() as u32,
        });
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
}

/// The registered checks of a binary: property id and what decides it.
pub type Check = (&'static str, fn(&mut Run));

/// Entry point: `chk-x <property> [--replay file]`.
pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        for (id, _) in checks {
            println!("{id}");
        }
        return;
    }
    let id = args[1].clone();
    let f = checks.iter().find(|c| c.0 == id).unwrap_or_else(|| panic!("no check for {id}")).1;
    // The search runs in a child, so that an abort (stack overflow, double panic) is still reported.
    if std::env::var("MC_CHILD").is_err() {
        let st = std::process::Command::new(std::env::current_exe().unwrap()).args(&args[1..]).env("MC_CHILD", "1").status().unwrap();
        let code = match st.code() {
            Some(c) => c,
            None => {
                use std::os::unix::process::ExitStatusExt;
                let sig = st.signal().unwrap_or(0);
                if sig == 9 || sig == 15 {
                    3
                } else {
                    let dir = root().join("replay");
                    let _ = std::fs::create_dir_all(&dir);
                    let path = dir.join(format!("{id}-abort.json"));
                    let _ = std::fs::write(&path, serde_json::json!({"property": id, "message": format!("the code under test ended the process with signal {sig}"), "command": args}).to_string());
                    println!("VIOLATION property={id} replay={}", path.display());
                    1
                }
            }
        };
        std::process::exit(code);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{m}{l}"));
            }
        });
    }));
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let mut known = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("finding: property={id} match=")) {
                let (sig, text) = r.split_once(" :: ").unwrap_or((r, r));
                known.push((sig.to_string(), text.to_string()));
            }
        }
    }
    let replay = args.iter().position(|a| a == "--replay").map(|i| serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap());
    let mut run = Run {
        id,
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        start: Instant::now(),
        states: 0,
        transitions: 0,
        traces: 0,
        samples: vec![],
        harnesses: vec![],
        outcomes: BTreeMap::new(),
        exhaustive: true,
        assumptions: vec![],
        known,
        known_seen: BTreeSet::new(),
        violation: None,
        replay,
        budget: Duration::from_secs(if tier == Tier::Quick { 420 } else { 6 * 3600 }),
    };
    let r = guard(|| f(&mut run));
    if let Err(m) = r {
        eprintln!("check error: {m}");
        run.evidence();
        std::process::exit(4);
    }
    run.evidence();
    println!(
        "{}: {} states, {} transitions, {} traces, {} outcomes, exhaustive={}, {:.1}s",
        run.id,
        run.states,
        run.transitions,
        run.traces,
        run.outcomes.len(),
        run.exhaustive,
        run.start.elapsed().as_secs_f64()
    );
    std::process::exit(run.violation.is_some() as i32);
}

// ---------------------------------------------------------------------------------------------
// Stateless search
// ---------------------------------------------------------------------------------------------

/// The source of every choice of one execution.
pub struct Ch {
    prefix: Vec<u32>,
    taken: Vec<u32>,
    arity: Vec<u32>,
    log: Vec<String>,
    steps: u64,
    seen: Vec<u128>,
    outcomes: Vec<String>,
}
impl Ch {
    fn new(prefix: Vec<u32>) -> Self {
        Ch { prefix, taken: vec![], arity: vec![], log: vec![], steps: 0, seen: vec![], outcomes: vec![] }
    }
    /// A choice in `0..n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "no alternative");
        let i = self.taken.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!((c as usize) < n, "replay diverged: choice {c} of {n} at point {i}");
        self.taken.push(c);
        self.arity.push(n as u32);
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.pick(xs.len());
        xs[i].clone()
    }
    /// A subset of `0..n` as a bit mask.
    pub fn subset(&mut self, n: usize) -> usize {
        self.pick(1 << n)
    }
    /// A sequence of length `0..=max` over `xs`.
    pub fn seq<T: Clone>(&mut self, xs: &[T], max: usize) -> Vec<T> {
        let n = self.pick(max + 1);
        (0..n).map(|_| self.of(xs)).collect()
    }
    /// A permutation of `0..n`.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        (0..n).map(|_| { let i = self.pick(v.len()); v.remove(i) }).collect()
    }
    /// Records one operation executed on the code under test.
    pub fn op(&mut self, s: impl FnOnce() -> String) {
        self.steps += 1;
        if self.log.len() < 200 {
            self.log.push(s());
        }
    }
    pub fn log_len(&self) -> usize {
        self.log.len()
    }
    /// Counts operations without logging them.
    pub fn ops(&mut self, n: u64) {
        self.steps += n;
    }
    /// Records a state that was reached.
    pub fn state<T: Hash + ?Sized>(&mut self, x: &T) {
        self.seen.push(fp(x));
    }
    /// Classifies the outcome of this execution (vacuity control).
    pub fn outcome(&mut self, s: &str) {
        self.outcomes.push(s.into());
    }
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8))
}

struct Watch {
    beats: Vec<AtomicU64>,
    t0: Instant,
}
impl Watch {
    fn new(n: usize) -> Self {
        Watch { beats: (0..n).map(|_| AtomicU64::new(0)).collect(), t0: Instant::now() }
    }
    fn beat(&self, i: usize) {
        self.beats[i].store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    fn idle(&self, i: usize) {
        self.beats[i].store(0, Ordering::Relaxed);
    }
    fn stuck(&self) -> bool {
        let now = self.t0.elapsed().as_millis() as u64;
        self.beats.iter().any(|b| {
            let b = b.load(Ordering::Relaxed);
            b != 0 && now > b + HANG_MS
        })
    }
}
const HANG_MS: u64 = 150_000;

/// Runs `f` for every combination of choices. Returns the number of executions.
pub fn explore(run: &mut Run, name: &str, f: impl Fn(&mut Ch) -> Result<(), String> + Sync) -> u64 {
    if run.violation.is_some() || std::env::var("MC_ONLY").is_ok_and(|o| o != name) {
        return 0;
    }
    if let Some(r) = &run.replay {
        if r["harness"] == name {
            let mut c = Ch::new(r["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect());
            let res = guard(|| f(&mut c)).unwrap_or_else(Err);
            for l in &c.log {
                println!("    {l}");
            }
            println!("replay of {name}: {res:?}");
            if let Err(m) = res {
                run.violation = Some(m);
            }
        }
        return 0;
    }
    let t0 = Instant::now();
    let n = threads();
    let deadline = t0 + run.left();
    let global: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let global_len = AtomicUsize::new(1);
    let busy = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let bads: Mutex<Vec<(Bad, bool)>> = Mutex::new(vec![]);
    let watch = Watch::new(n);
    struct Acc {
        execs: u64,
        steps: u64,
        seen: HashSet<u128>,
        outcomes: BTreeMap<String, u64>,
        samples: Vec<String>,
    }
    let known: Vec<String> = run.known.iter().map(|k| k.0.clone()).collect();
    let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..n {
            let (f, global, global_len, busy, stop, capped, bads, watch, accs, known) = (&f, &global, &global_len, &busy, &stop, &capped, &bads, &watch, &accs, &known);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut acc = Acc { execs: 0, steps: 0, seen: HashSet::new(), outcomes: BTreeMap::new(), samples: vec![] };
                let mut local: Vec<Vec<u32>> = vec![];
                'outer: loop {
                    if local.is_empty() {
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            let mut g = global.lock().unwrap();
                            if let Some(p) = g.pop() {
                                global_len.store(g.len(), Ordering::Relaxed);
                                busy.fetch_add(1, Ordering::SeqCst);
                                local.push(p);
                                break;
                            }
                            if busy.load(Ordering::SeqCst) == 0 {
                                break 'outer;
                            }
                            drop(g);
                            std::thread::sleep(Duration::from_micros(50));
                        }
                    }
                    while let Some(p) = local.pop() {
                        if stop.load(Ordering::Relaxed) {
                            local.clear();
                            break;
                        }
                        if acc.execs % 64 == 0 && Instant::now() > deadline {
                            capped.store(true, Ordering::Relaxed);
                            stop.store(true, Ordering::Relaxed);
                        }
                        let k = p.len();
                        let mut c = Ch::new(p);
                        watch.beat(w);
                        let r = guard(|| f(&mut c)).unwrap_or_else(Err);
                        watch.idle(w);
                        acc.execs += 1;
                        acc.steps += c.steps;
                        acc.seen.extend(c.seen.drain(..));
                        for o in c.outcomes.drain(..) {
                            *acc.outcomes.entry(o).or_default() += 1;
                        }
                        if acc.samples.len() < 2 || acc.execs.is_power_of_two() && acc.samples.len() < 12 {
                            acc.samples.push(c.log.join("; "));
                        }
                        if let Err(msg) = r {
                            let k = known.iter().any(|s| msg.contains(s));
                            let mut b = bads.lock().unwrap();
                            if b.len() < 1000 {
                                b.push((Bad { harness: name.into(), choices: c.taken.iter().map(|x| *x as usize).collect(), log: c.log.clone(), msg }, k));
                            }
                            if !k {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        for i in k..c.taken.len() {
                            for alt in (c.taken[i] + 1)..c.arity[i] {
                                let mut q = c.taken[..i].to_vec();
                                q.push(alt);
                                local.push(q);
                            }
                        }
                        if local.len() > 1 && global_len.load(Ordering::Relaxed) < n {
                            let mut g = global.lock().unwrap();
                            let m = local.len() / 2;
                            // The oldest prefixes are the largest subtrees.
                            g.extend(local.drain(..m));
                            global_len.store(g.len(), Ordering::Relaxed);
                        }
                    }
                    busy.fetch_sub(1, Ordering::SeqCst);
                }
                accs.lock().unwrap().push(acc);
            }).unwrap();
        }
        // The watchdog: an execution that does not end is a violation of its own.
        let (watch, accs, id) = (&watch, &accs, run.id.clone());
        s.spawn(move || {
            while accs.lock().unwrap().len() < n {
                std::thread::sleep(Duration::from_millis(5));
                if watch.stuck() {
                    hang(&id, name);
                }
            }
        });
    });
    let mut seen = HashSet::new();
    let (mut execs, mut steps) = (0, 0);
    for a in accs.into_inner().unwrap() {
        execs += a.execs;
        steps += a.steps;
        seen.extend(a.seen);
        for (k, v) in a.outcomes {
            *run.outcomes.entry(format!("{name}: {k}")).or_default() += v;
        }
        for s in a.samples.into_iter().rev().take(1) {
            run.sample(format!("{name}: {s}"));
        }
    }
    run.states += seen.len() as u64;
    run.transitions += steps;
    run.traces += execs;
    let capped = capped.into_inner();
    run.exhaustive &= !capped;
    run.harnesses.push(serde_json::json!({ "name": name, "kind": "stateless", "executions": execs, "operations": steps, "distinct_states": seen.len(), "completed": !capped && bads.lock().unwrap().iter().all(|b| b.1), "wall_s": t0.elapsed().as_secs_f64() }));
    let mut bads = bads.into_inner().unwrap();
    bads.sort_by_key(|b| (b.0.choices.len(), b.0.choices.clone()));
    for (b, k) in bads {
        if k {
            run.is_known(&b.msg);
        } else {
            // Replay before trusting it. (Code that iterates over a randomly seeded map may need several runs.)
            let again = (0..50).any(|_| {
                let mut c = Ch::new(b.choices.iter().map(|x| *x as u32).collect());
                guard(|| f(&mut c)).unwrap_or_else(Err).is_err()
            });
            let mut b = b;
            if !again {
                // Deterministic harnesses only: then what differs is what the code remembers of earlier executions.
                b.msg = format!("{} (only after other executions in the same thread: what happened before matters)", b.msg);
            }
            run.report(b);
        }
    }
    execs
}

fn hang(id: &str, name: &str) -> ! {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-hang.json"));
    let _ = std::fs::write(&path, serde_json::json!({"property": id, "harness": name, "message": "an execution did not end"}).to_string());
    println!("{id} [{name}]: an execution did not end within {} s", HANG_MS / 1000);
    println!("VIOLATION property={id} replay={}", path.display());
    std::process::exit(1)
}

// ---------------------------------------------------------------------------------------------
// Explicit-state search
// ---------------------------------------------------------------------------------------------

/// A closed system around the code under test. `S` holds the real object and the specification's state.
pub trait System: Sync {
    type S: Clone + Send + Sync;
    type A: Debug + Clone + Send + Sync;
    fn init(&self) -> Vec<Self::S>;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    /// Executes `a` on the real object and on the specification, and compares.
    fn step(&self, s: &mut Self::S, a: &Self::A) -> Result<(), String>;
    /// A canonical form; states with equal forms must have the same futures.
    fn key(&self, s: &Self::S) -> u128;
    /// Checked in every state.
    fn check(&self, _s: &Self::S) -> Result<(), String> {
        Ok(())
    }
}

pub fn bfs<Y: System>(run: &mut Run, name: &str, y: &Y, depth: usize, max_states: usize) -> usize {
    if run.violation.is_some() || std::env::var("MC_ONLY").is_ok_and(|o| o != name) {
        return 0;
    }
    let exec = |choices: &[usize]| -> (Vec<String>, Result<u128, String>) {
        let mut log = vec![];
        let r = guard(|| -> Result<u128, String> {
            let mut s = y.init().swap_remove(choices[0]);
            y.check(&s)?;
            for c in &choices[1..] {
                let a = y.actions(&s)[*c].clone();
                log.push(format!("{a:?}"));
                y.step(&mut s, &a)?;
                y.check(&s)?;
            }
            Ok(y.key(&s))
        });
        (log, r.unwrap_or_else(Err))
    };
    if let Some(r) = &run.replay {
        if r["harness"] == name {
            let c: Vec<usize> = r["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let (log, res) = exec(&c);
            for l in log {
                println!("    {l}");
            }
            println!("replay of {name}: {res:?}");
            if let Err(m) = res {
                run.violation = Some(m);
            }
        }
        return 0;
    }
    let t0 = Instant::now();
    let deadline = t0 + run.left();
    let n = threads();
    // (parent, choice)
    let mut nodes: Vec<(u32, u32)> = vec![];
    let mut seen: HashSet<u128> = HashSet::new();
    let mut keys: Vec<u128> = vec![];
    let mut frontier: Vec<(u32, Y::S)> = vec![];
    let mut transitions = 0u64;
    let mut capped = false;
    let path = |nodes: &Vec<(u32, u32)>, mut i: u32| {
        let mut p = vec![];
        loop {
            p.push(nodes[i as usize].1 as usize);
            if nodes[i as usize].0 == u32::MAX {
                break;
            }
            i = nodes[i as usize].0;
        }
        p.reverse();
        p
    };
    let mut bad: Option<(Vec<usize>, String)> = None;
    match guard(|| y.init()) {
        Err(m) => {
            run.report(Bad { harness: name.into(), choices: vec![], log: vec!["initial state".into()], msg: m });
            return 0;
        }
        Ok(v) => {
            for (i, s) in v.into_iter().enumerate() {
                if let Err(m) = guard(|| y.check(&s)).unwrap_or_else(Err) {
                    bad = Some((vec![i], m));
                }
                let k = y.key(&s);
                if seen.insert(k) {
                    nodes.push((u32::MAX, i as u32));
                    keys.push(k);
                    frontier.push((nodes.len() as u32 - 1, s));
                }
            }
        }
    }
    let mut d = 0;
    let mut level_sizes = vec![frontier.len()];
    let mut known_hits = vec![];
    while d < depth && !frontier.is_empty() && bad.is_none() && !capped {
        d += 1;
        enum Out<S> {
            New(u32, u32, u128, S),
            Bad(u32, u32, String),
        }
        let next_i = AtomicUsize::new(0);
        let results: Mutex<Vec<(usize, Vec<Out<Y::S>>, u64)>> = Mutex::new(vec![]);
        let watch = Watch::new(n);
        let done = AtomicUsize::new(0);
        const CHUNK: usize = 64;
        let over = AtomicBool::new(false);
        std::thread::scope(|s| {
            for w in 0..n {
                let (frontier, seen, next_i, results, watch, done, over) = (&frontier, &seen, &next_i, &results, &watch, &done, &over);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    loop {
                        let c = next_i.fetch_add(1, Ordering::Relaxed);
                        let (lo, hi) = (c * CHUNK, ((c + 1) * CHUNK).min(frontier.len()));
                        if lo >= frontier.len() || over.load(Ordering::Relaxed) {
                            break;
                        }
                        if Instant::now() > deadline {
                            over.store(true, Ordering::Relaxed);
                        }
                        let mut out = vec![];
                        let mut mine = HashSet::new();
                        let mut t = 0;
                        for (id, st) in &frontier[lo..hi] {
                            let acts = match guard(|| y.actions(st)) {
                                Ok(a) => a,
                                Err(m) => {
                                    out.push(Out::Bad(*id, u32::MAX, m));
                                    continue;
                                }
                            };
                            for (ai, a) in acts.iter().enumerate() {
                                watch.beat(w);
                                t += 1;
                                let r = guard(|| -> Result<(u128, Y::S), String> {
                                    let mut s2 = st.clone();
                                    y.step(&mut s2, a)?;
                                    y.check(&s2)?;
                                    Ok((y.key(&s2), s2))
                                })
                                .unwrap_or_else(Err);
                                match r {
                                    Ok((k, s2)) => {
                                        if !seen.contains(&k) && mine.insert(k) {
                                            out.push(Out::New(*id, ai as u32, k, s2));
                                        }
                                    }
                                    Err(m) => out.push(Out::Bad(*id, ai as u32, m)),
                                }
                            }
                            watch.idle(w);
                        }
                        results.lock().unwrap().push((c, out, t));
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                }).unwrap();
            }
            let (watch, done, id) = (&watch, &done, run.id.clone());
            s.spawn(move || {
                while done.load(Ordering::SeqCst) < n {
                    std::thread::sleep(Duration::from_millis(2));
                    if watch.stuck() {
                        hang(&id, name);
                    }
                }
            });
        });
        capped |= over.into_inner();
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut next = vec![];
        for (_, outs, t) in results {
            transitions += t;
            for o in outs {
                match o {
                    Out::New(p, a, k, s) => {
                        if seen.len() < max_states {
                            if seen.insert(k) {
                                nodes.push((p, a));
                                keys.push(k);
                                next.push((nodes.len() as u32 - 1, s));
                            }
                        } else if !seen.contains(&k) {
                            capped = true;
                        }
                    }
                    Out::Bad(p, a, m) => {
                        let mut c = path(&nodes, p);
                        if a != u32::MAX {
                            c.push(a as usize);
                        }
                        if run.is_known(&m) {
                            known_hits.push(m);
                        } else if bad.is_none() {
                            bad = Some((c, m));
                        }
                    }
                }
            }
        }
        frontier = next;
        level_sizes.push(frontier.len());
    }
    let closed = frontier.is_empty() && !capped;
    // Execute paths again from scratch on fresh instances.
    let mut validated = 0u64;
    if bad.is_none() {
        let max = run.pick(20_000, 200_000).min(nodes.len());
        let stride = nodes.len().div_ceil(max.max(1)).max(1);
        let ids: Vec<u32> = (0..nodes.len()).rev().step_by(stride).map(|x| x as u32).collect();
        let next_i = AtomicUsize::new(0);
        let fails: Mutex<Vec<(Vec<usize>, String)>> = Mutex::new(vec![]);
        let count = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..n {
                let (ids, nodes, keys, next_i, fails, count, exec, path) = (&ids, &nodes, &keys, &next_i, &fails, &count, &exec, &path);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    loop {
                        let i = next_i.fetch_add(1, Ordering::Relaxed);
                        if i >= ids.len() || Instant::now() > deadline + Duration::from_secs(60) {
                            break;
                        }
                        let p = path(nodes, ids[i]);
                        let (_, r) = exec(&p);
                        match r {
                            Ok(k) if k == keys[ids[i] as usize] => {
                                count.fetch_add(1, Ordering::Relaxed);
                            }
                            Ok(_) => fails.lock().unwrap().push((p, "the same operations on a fresh instance lead to a different state".into())),
                            Err(m) => fails.lock().unwrap().push((p, m)),
                        }
                    }
                }).unwrap();
            }
        });
        validated = count.into_inner();
        let mut f = fails.into_inner().unwrap();
        f.sort_by_key(|x| x.0.len());
        bad = f.into_iter().next();
        let k = nodes.len();
        for i in [1, k / 2, k.saturating_sub(1)] {
            if i < k {
                run.sample(format!("{name}: {}", exec(&path(&nodes, i as u32)).0.join("; ")));
            }
        }
    }
    run.states += nodes.len() as u64;
    run.transitions += transitions;
    run.traces += validated;
    run.exhaustive &= !capped;
    run.harnesses.push(serde_json::json!({ "name": name, "kind": "breadth-first", "states": nodes.len(), "transitions": transitions, "depth_completed": if capped { d - 1 } else { d }, "depth_bound": depth, "closed": closed, "capped": capped, "level_sizes": level_sizes, "traces_replayed": validated, "known_findings_hit": known_hits.len(), "wall_s": t0.elapsed().as_secs_f64() }));
    *run.outcomes.entry(format!("{name}: {}", if closed { "state space closed" } else { "depth bound reached" })).or_default() += 1;
    if let Some((choices, msg)) = bad {
        let (log, r) = exec(&choices);
        let msg = match r {
            Err(m) => m,
            Ok(_) => msg,
        };
        if !run.is_known(&msg) {
            run.report(Bad { harness: name.into(), choices, log, msg });
        }
    }
    nodes.len()
}
