//! A small deterministic driver around proptest's strategies and value trees.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What a check function reports about one case besides pass/fail.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    nontrivial: bool,
    pub known: Vec<String>,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        if let Some(x) = self.labels.get_mut(s) {
            *x += 1
        } else {
            self.labels.insert(s.to_owned(), 1);
        }
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.label(s)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// A failure with this exact signature is listed in known_findings.json when it is a finding.
    pub fn known(&mut self, sig: String) {
        self.known.push(sig)
    }
}

pub type Check = Result<(), String>;

static SEEN_STUCK: AtomicBool = AtomicBool::new(false);
/// Runs a case in a thread of its own, so that one that never ends is a failure like others (and leaves a thread behind).
pub fn in_a_thread<C: Clone + Send + 'static>(c: &C, ctx: &mut Ctx, f: fn(&C, &mut Ctx) -> Check) -> Check {
    let (tell, told) = std::sync::mpsc::channel();
    let c = c.clone();
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let mut x = Ctx::default();
            let r = catch(|| f(&c, &mut x));
            let _ = tell.send((r, x));
        })
        .unwrap();
    // once it has been seen, smaller cases need not show it as thoroughly
    let wait = std::time::Duration::from_secs(if SEEN_STUCK.load(Ordering::Relaxed) { 2 } else { 30 });
    let (r, x) = told.recv_timeout(wait).map_err(|_| {
        SEEN_STUCK.store(true, Ordering::Relaxed);
        "an operation never returned".to_owned()
    })?;
    for (l, n) in x.labels {
        *ctx.labels.entry(l).or_insert(0) += n;
    }
    ctx.nontrivial |= x.nontrivial;
    ctx.known.extend(x.known);
    r.unwrap_or_else(|p| Err(format!("panicked: {p}")))
}

pub struct Failure {
    pub case: Value,
    pub msg: String,
    pub shrinks: u32,
}

#[derive(Default)]
pub struct ArmReport {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub known: BTreeMap<String, u64>,
    pub wall: f64,
}

pub struct Arm {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    run: Box<dyn Fn(&RunCfg, u32) -> ArmReport + Sync>,
    replay: Box<dyn Fn(&Value) -> Result<(Check, Ctx), String>>,
}

pub struct RunCfg {
    pub prop: String,
    pub seed: u64,
    pub threads: usize,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static EXPECT: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        if !EXPECT.try_with(|e| e.get()).unwrap_or(false) || PANIC.try_with(|p| *p.borrow_mut() = s).is_err() {
            eprintln!("{info}");
        }
    }));
}

/// Run `f`, giving its panic message if it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = EXPECT.with(|e| e.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()));
    EXPECT.with(|e| e.set(outer));
    r
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(prop: &str, arm: &str, seed: u64, chunk: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    for i in 0..4u64 {
        let h = fnv(format!("{prop}/{arm}/{seed}/{chunk}/{i}").as_bytes());
        bytes[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn truncate(v: Value, max: usize) -> Value {
    let s = v.to_string();
    if s.len() <= max {
        v
    } else {
        let mut e = max;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        Value::String(format!("{}... ({} bytes)", &s[..e], s.len()))
    }
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
const CHUNK: u32 = 25;

impl Arm {
    pub fn new<S, T>(
        name: &'static str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn() -> S + Sync + 'static,
        check: impl Fn(&T, &mut Ctx) -> Check + Sync + Clone + 'static,
    ) -> Arm
    where
        S: Strategy<Value = T>,
        T: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
    {
        Self::with(name, quick, thorough, false, strategy, check)
    }

    /// An arm whose cases use threads themselves: run one case at a time.
    pub fn serial<S, T>(
        name: &'static str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn() -> S + Sync + 'static,
        check: impl Fn(&T, &mut Ctx) -> Check + Sync + Clone + 'static,
    ) -> Arm
    where
        S: Strategy<Value = T>,
        T: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
    {
        Self::with(name, quick, thorough, true, strategy, check)
    }

    fn with<S, T>(
        name: &'static str,
        quick: u32,
        thorough: u32,
        serial: bool,
        strategy: impl Fn() -> S + Sync + 'static,
        check: impl Fn(&T, &mut Ctx) -> Check + Sync + Clone + 'static,
    ) -> Arm
    where
        S: Strategy<Value = T>,
        T: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
    {
        let check2 = check.clone();
        Arm {
            name,
            quick,
            thorough,
            run: Box::new(move |cfg, cases| {
                let threads = if serial { 1 } else { cfg.threads };
                run_arm(cfg, name, cases, threads, &strategy, &check)
            }),
            replay: Box::new(move |v| {
                let case: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
                let mut ctx = Ctx::default();
                let r = one(&check2, &case, &mut ctx);
                Ok((r, ctx))
            }),
        }
    }
    pub fn run(&self, cfg: &RunCfg, cases: u32) -> ArmReport {
        (self.run)(cfg, cases)
    }
    pub fn replay(&self, v: &Value) -> Result<(Check, Ctx), String> {
        (self.replay)(v)
    }
}

fn one<T>(check: &(impl Fn(&T, &mut Ctx) -> Check + ?Sized), case: &T, ctx: &mut Ctx) -> Check {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    match catch(|| check(case, ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

fn run_arm<S, T>(
    cfg: &RunCfg,
    name: &str,
    cases: u32,
    threads: usize,
    strategy: &(impl Fn() -> S + Sync),
    check: &(impl Fn(&T, &mut Ctx) -> Check + Sync),
) -> ArmReport
where
    S: Strategy<Value = T>,
    T: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
{
    let t0 = Instant::now();
    let chunks = cases.div_ceil(CHUNK);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new((ArmReport::default(), u32::MAX));
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let strat = strategy();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let c = next.fetch_add(1, Ordering::Relaxed) as u32;
                    if c >= chunks {
                        return;
                    }
                    let n = CHUNK.min(cases - c * CHUNK);
                    let mut runner = TestRunner::new_with_rng(
                        Config { failure_persistence: None, ..Config::default() },
                        rng_for(&cfg.prop, name, cfg.seed, c as u64),
                    );
                    let mut rep = ArmReport::default();
                    for i in 0..n {
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                eprintln!("HARNESS ERROR: generator {name} gave up: {e}");
                                std::process::exit(4);
                            }
                        };
                        let case = tree.current();
                        let mut ctx = Ctx::default();
                        let r = one(check, &case, &mut ctx);
                        rep.evaluations += 1;
                        for (k, v) in std::mem::take(&mut ctx.labels) {
                            *rep.labels.entry(k).or_default() += v;
                        }
                        for k in std::mem::take(&mut ctx.known) {
                            *rep.known.entry(k).or_default() += 1;
                        }
                        if ctx.nontrivial {
                            let js = serde_json::to_vec(&case).unwrap();
                            rep.nontrivial.insert(fnv(&js));
                        }
                        if c == 0 && i % 9 == 4 {
                            rep.samples.push(truncate(serde_json::to_value(&case).unwrap(), 900));
                        }
                        if let Err(msg) = r {
                            stop.store(true, Ordering::Relaxed);
                            rep.failure = Some(shrink(&mut tree, check, case, msg));
                            break;
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.0.evaluations += rep.evaluations;
                    o.0.nontrivial.extend(rep.nontrivial);
                    for (k, v) in rep.labels {
                        *o.0.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in rep.known {
                        *o.0.known.entry(k).or_default() += v;
                    }
                    o.0.samples.extend(rep.samples);
                    if rep.failure.is_some() && c < o.1 {
                        o.0.failure = rep.failure;
                        o.1 = c;
                    }
                }
            });
        }
    });
    let mut r = out.into_inner().unwrap().0;
    r.wall = t0.elapsed().as_secs_f64();
    r
}

fn shrink<VT: ValueTree<Value = T>, T: Serialize>(
    tree: &mut VT,
    check: &(impl Fn(&T, &mut Ctx) -> Check + Sync),
    first: T,
    msg: String,
) -> Failure {
    let t0 = Instant::now();
    let mut best = Failure { case: serde_json::to_value(&first).unwrap(), msg, shrinks: 0 };
    let mut steps = 0u32;
    let mut go = tree.simplify();
    // The bound only limits how small the reproduction gets, never the verdict.
    while go && steps < 4000 && t0.elapsed().as_secs() < 20 {
        steps += 1;
        let case = tree.current();
        let mut ctx = Ctx::default();
        match one(check, &case, &mut ctx) {
            Err(m) => {
                best.case = serde_json::to_value(&case).unwrap();
                best.msg = m;
                best.shrinks += 1;
                go = tree.simplify();
            }
            Ok(()) => go = tree.complicate(),
        }
    }
    best
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub arms: Vec<Arm>,
}

/// Runs a property; returns the evidence and the failures.
pub fn run_property(p: &Property, tier: &str, seed: u64, only: Option<&str>) -> (Value, Vec<(String, Failure)>, BTreeMap<String, u64>) {
    let cfg = RunCfg { prop: p.id.to_owned(), seed, threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(8) };
    let t0 = Instant::now();
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut arms = serde_json::Map::new();
    let mut samples = vec![];
    let mut failures = vec![];
    let mut known = BTreeMap::new();
    for arm in &p.arms {
        if only.is_some_and(|o| o != arm.name) {
            continue;
        }
        let cases = if tier == "thorough" { arm.thorough } else { arm.quick };
        let mut r = arm.run(&cfg, cases);
        evaluations += r.evaluations;
        nontrivial += r.nontrivial.len() as u64;
        r.samples.sort_by_key(|s| s.to_string());
        for s in r.samples.into_iter().take(2) {
            samples.push(json!({"arm": arm.name, "case": s}));
        }
        for (k, v) in r.known {
            *known.entry(k).or_default() += v;
        }
        arms.insert(
            arm.name.to_owned(),
            json!({"cases": r.evaluations, "distinct_nontrivial": r.nontrivial.len(), "classes": r.labels,
                   "wall_s": (r.wall * 100.0).round() / 100.0, "failed": r.failure.is_some()}),
        );
        if let Some(f) = r.failure {
            failures.push((arm.name.to_owned(), f));
        }
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": nontrivial, "rule": p.rule,
                     "samples": samples, "arms": arms},
        "wall_s": t0.elapsed().as_secs_f64(), "violations": failures.len(),
    });
    (ev, failures, known)
}
