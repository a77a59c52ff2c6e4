//! Runs a plan and judges what was seen.
//!
//! Thread t changes a metric by base^t each time, so the digits of any value seen say how many of each
//! thread's updates it contains.
use crate::plan::{Op, Plan, What};
use crate::sets::{Keys, KEYS};
use measured::label::LabelGroupSet;
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{Metric, MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::BufferedTextEncoder;
use std::sync::atomic::{fence, AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;

pub const MAX_T: usize = 8;
type Digits = [u32; MAX_T];

/// Counts up whenever a thread finishes an operation; watched for deadlocks.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy)]
pub struct Code {
    threads: usize,
    base: i64,
    dec: bool,
}
impl Code {
    fn amount(&self, t: usize) -> i64 {
        self.base.pow(t as u32)
    }
    fn sign(&self, t: usize) -> i64 {
        if self.dec && t % 2 == 1 { -1 } else { 1 }
    }
    fn digits(&self, value: i64) -> Result<Digits, String> {
        let mut v = value;
        let mut d = [0; MAX_T];
        for t in 0..self.threads {
            let c = (v * self.sign(t)).rem_euclid(self.base);
            d[t] = c as u32;
            v = (v - self.sign(t) * c) / self.base;
        }
        if v != 0 { Err(format!("the value {value} is no sum of updates")) } else { Ok(d) }
    }
}

pub trait Kind: 'static {
    type M: MetricType<Metadata: Send + Sync> + MetricEncoding<BufferedTextEncoder> + Send + Sync + 'static;
    fn meta(c: Code) -> <Self::M as MetricType>::Metadata;
    fn update<L: LabelGroupSet>(v: &MetricVec<Self::M, L>, g: L::Group<'_>, x: i64);
    fn update_id<L: LabelGroupSet>(v: &MetricVec<Self::M, L>, id: measured::metric::LabelId<L>, x: i64);
    fn update_single(m: &Metric<Self::M>, x: i64);
    /// `n` updates through one guard
    fn update_held(m: &Self::M, meta: &<Self::M as MetricType>::Metadata, x: i64);
    fn set<L: LabelGroupSet>(_: &MetricVec<Self::M, L>, _: L::Group<'_>, _: i64) { unreachable!() }
    fn set_single(_: &Metric<Self::M>, _: i64) { unreachable!() }
    /// digits of a removed state
    fn state(m: Self::M, c: Code) -> Result<Digits, String>;
}
pub struct CounterK;
impl Kind for CounterK {
    type M = CounterState;
    fn meta(_: Code) {}
    fn update<L: LabelGroupSet>(v: &MetricVec<CounterState, L>, g: L::Group<'_>, x: i64) { if x == 1 { v.inc(g) } else { v.inc_by(g, x as u64) } }
    fn update_id<L: LabelGroupSet>(v: &MetricVec<CounterState, L>, id: measured::metric::LabelId<L>, x: i64) { v.get_metric(id).inc_by(x as u64) }
    fn update_single(m: &Metric<CounterState>, x: i64) { if x == 1 { m.inc() } else { m.inc_by(x as u64) } }
    fn update_held(m: &CounterState, _: &(), x: i64) { m.inc_by(x as u64) }
    fn state(m: CounterState, c: Code) -> Result<Digits, String> { c.digits(m.count.into_inner() as i64) }
}
pub struct GaugeK;
impl Kind for GaugeK {
    type M = GaugeState;
    fn meta(_: Code) {}
    fn update<L: LabelGroupSet>(v: &MetricVec<GaugeState, L>, g: L::Group<'_>, x: i64) {
        match x { 1 => v.inc(g), -1 => v.dec(g), x if x < 0 => v.dec_by(g, -x), x => v.inc_by(g, x) }
    }
    fn update_id<L: LabelGroupSet>(v: &MetricVec<GaugeState, L>, id: measured::metric::LabelId<L>, x: i64) {
        match x { 1 => v.get_metric(id).inc(), -1 => v.get_metric(id).dec(), x if x < 0 => v.get_metric(id).dec_by(-x), x => v.get_metric(id).inc_by(x) }
    }
    fn update_single(m: &Metric<GaugeState>, x: i64) { match x { 1 => m.inc(), -1 => m.dec(), x if x < 0 => m.dec_by(-x), x => m.inc_by(x) } }
    fn update_held(m: &GaugeState, _: &(), x: i64) { m.count.fetch_add(x, Relaxed); }
    fn set<L: LabelGroupSet>(v: &MetricVec<GaugeState, L>, g: L::Group<'_>, x: i64) { v.set(g, x) }
    fn set_single(m: &Metric<GaugeState>, x: i64) { m.set(x) }
    fn state(m: GaugeState, c: Code) -> Result<Digits, String> { c.digits(m.count.into_inner()) }
}
pub struct FloatK;
impl Kind for FloatK {
    type M = FloatGaugeState;
    fn meta(_: Code) {}
    fn update<L: LabelGroupSet>(v: &MetricVec<FloatGaugeState, L>, g: L::Group<'_>, x: i64) {
        match x { 1 => v.inc(g), -1 => v.dec(g), x if x < 0 => v.dec_by(g, -x as f64), x => v.inc_by(g, x as f64) }
    }
    fn update_id<L: LabelGroupSet>(v: &MetricVec<FloatGaugeState, L>, id: measured::metric::LabelId<L>, x: i64) {
        match x { 1 => v.get_metric(id).inc(), -1 => v.get_metric(id).dec(), x if x < 0 => v.get_metric(id).dec_by(-x as f64), x => v.get_metric(id).inc_by(x as f64) }
    }
    fn update_single(m: &Metric<FloatGaugeState>, x: i64) { match x { 1 => m.inc(), -1 => m.dec(), x if x < 0 => m.dec_by(-x as f64), x => m.inc_by(x as f64) } }
    fn update_held(m: &FloatGaugeState, _: &(), x: i64) { m.count.inc_by(x as f64) }
    fn set<L: LabelGroupSet>(v: &MetricVec<FloatGaugeState, L>, g: L::Group<'_>, x: i64) { v.set(g, x as f64) }
    fn set_single(m: &Metric<FloatGaugeState>, x: i64) { m.set(x as f64) }
    fn state(m: FloatGaugeState, c: Code) -> Result<Digits, String> { float_digits(m.count.get(), c) }
}
pub struct HistK;
impl Kind for HistK {
    type M = HistogramState<3>;
    fn meta(c: Code) -> Thresholds<3> { Thresholds::with_buckets(bounds(c)) }
    fn update<L: LabelGroupSet>(v: &MetricVec<HistogramState<3>, L>, g: L::Group<'_>, x: i64) { v.observe(g, x as f64) }
    fn update_id<L: LabelGroupSet>(v: &MetricVec<HistogramState<3>, L>, id: measured::metric::LabelId<L>, x: i64) { v.get_metric(id).observe(x as f64) }
    fn update_single(m: &Metric<HistogramState<3>>, x: i64) { m.observe(x as f64) }
    fn update_held(m: &HistogramState<3>, meta: &Thresholds<3>, x: i64) {
        let b = meta.get().iter().position(|b| x as f64 <= *b).unwrap_or(3);
        m.inner.read().observe(b, x as f64)
    }
    fn state(m: HistogramState<3>, c: Code) -> Result<Digits, String> {
        let s = m.inner.into_inner();
        let b = s.buckets.map(|b| b.into_inner());
        let inf = s.inf.into_inner();
        let cum = [b[0], b[0] + b[1], b[0] + b[1] + b[2], b[0] + b[1] + b[2] + inf];
        hist_digits(cum, cum[3], s.sum.get(), c)
    }
}
fn bounds(c: Code) -> [f64; 3] {
    [1.0, c.amount(1) as f64, c.amount(2) as f64]
}
fn float_digits(f: f64, c: Code) -> Result<Digits, String> {
    if f.fract() != 0.0 || f.abs() > 9e15 { Err(format!("the value {f} is no sum of updates")) } else { c.digits(f as i64) }
}
/// The sum says which observations are in; the buckets have to agree.
fn hist_digits(cum: [u64; 4], count: u64, sum: f64, c: Code) -> Result<Digits, String> {
    let d = float_digits(sum, c)?;
    for (i, n) in cum.iter().enumerate() {
        let want: u64 = (0..c.threads).filter(|t| i == 3 || c.amount(*t) as f64 <= bounds(c)[i]).map(|t| d[t] as u64).sum();
        if *n != want || (i == 3 && count != want) {
            return Err(format!("torn histogram: buckets {cum:?}, count {count}, but the sum {sum} is that of {:?} observations per thread", &d[..c.threads]));
        }
    }
    Ok(d)
}

enum Holder<M: MetricType, L: LabelGroupSet> {
    Single(Metric<M>),
    Vec(MetricVec<M, L>),
}

enum Seen {
    Digits(Digits),
    Raw(i64),
}

fn scrape<K: Kind, S: Keys>(h: &Holder<K::M, S::L>, hist: bool, raw: bool, c: Code, texts: &[String; KEYS]) -> Result<[Option<Seen>; KEYS], String> {
    let name = MetricName::from_str("m");
    let mut enc = BufferedTextEncoder::new();
    match h {
        Holder::Single(m) => m.collect_family_into(name, &mut enc),
        Holder::Vec(v) => v.collect_family_into(name, &mut enc),
    }
    .unwrap();
    let bytes = enc.finish();
    let text = std::str::from_utf8(&bytes).map_err(|e| e.to_string())?;
    let mut out: [Option<Seen>; KEYS] = Default::default();
    let mut lines = text.lines().filter(|l| !l.starts_with('#') && !l.is_empty());
    // -> (suffix, labels, value)
    fn split(l: &str) -> Result<(&str, &str, &str), String> {
        let bad = || format!("odd line {l:?}");
        let (head, value) = l.rsplit_once(' ').ok_or_else(bad)?;
        let head = head.strip_prefix('m').ok_or_else(bad)?;
        match head.split_once('{') {
            Some((suffix, labels)) => Ok((suffix, labels.strip_suffix('}').ok_or_else(bad)?, value)),
            None => Ok((head, "", value)),
        }
    }
    while let Some(l) = lines.next() {
        let (suffix, labels, value) = split(l)?;
        let (labels, seen) = if hist {
            let mut cum = [0u64; 4];
            let mut owner = None;
            let mut line = (suffix, labels, value);
            for (i, c) in cum.iter_mut().enumerate() {
                let (own, _) = line.1.rsplit_once("le=").ok_or("no le")?;
                let own = own.trim_end_matches(',');
                if line.0 != "_bucket" || *owner.get_or_insert(own) != own {
                    return Err(format!("bucket line {i} out of place in\n{text}"));
                }
                *c = line.2.parse().map_err(|_| format!("odd count {:?}", line.2))?;
                line = split(lines.next().ok_or("the export stops inside a histogram")?)?;
            }
            let sum: f64 = line.2.parse().map_err(|_| "odd sum")?;
            if line.0 != "_sum" || line.1 != owner.unwrap() { return Err(format!("no sum line in\n{text}")) }
            let line = split(lines.next().ok_or("the export stops inside a histogram")?)?;
            if line.0 != "_count" || line.1 != owner.unwrap() { return Err(format!("no count line in\n{text}")) }
            let count: u64 = line.2.parse().map_err(|_| "odd count")?;
            (owner.unwrap(), Seen::Digits(hist_digits(cum, count, sum, c)?))
        } else {
            if !suffix.is_empty() { return Err(format!("odd line {l:?}")) }
            let f: f64 = value.parse().map_err(|_| format!("odd value {value:?}"))?;
            (labels, if raw { Seen::Raw(f as i64) } else { Seen::Digits(float_digits(f, c)?) })
        };
        let k = if let Holder::Single(_) = h {
            if !labels.is_empty() { return Err(format!("labels on a single metric: {l}")) }
            0
        } else {
            texts.iter().position(|t| t == labels).ok_or_else(|| format!("unknown labels {labels:?}"))?
        };
        if out[k].replace(seen).is_some() {
            return Err(format!("key {k} is exported twice in one scrape:\n{text}"));
        }
    }
    Ok(out)
}

type Tab = [[AtomicU32; KEYS]; MAX_T];
#[derive(Default)]
struct Log {
    started: Tab,
    done: Tab,
    touched: [AtomicU32; KEYS],
    touch_started: [AtomicU32; KEYS],
    removed: Tab,
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub scrapes: u64,
    /// scrapes that saw some but not all of the updates
    pub partial: u64,
    pub removed: u64,
    pub updates: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.scrapes += o.scrapes;
        self.partial += o.partial;
        self.removed += o.removed;
        self.updates += o.updates;
    }
}

struct Own {
    started: [u32; KEYS],
    touched: [bool; KEYS],
    /// used since this thread last removed it
    live: [bool; KEYS],
    gets: [u32; KEYS],
    removed: [Digits; KEYS],
    removals: [u32; KEYS],
    prev: [Option<Digits>; KEYS],
    prev_card: usize,
    stats: Stats,
    errors: Vec<String>,
}

struct Env<'p> {
    plan: &'p Plan,
    code: Code,
    hist: bool,
    setmode: bool,
    texts: [String; KEYS],
    /// updates of each thread on each key
    issued: [[u32; KEYS]; MAX_T],
    volatile: [bool; KEYS],
    /// the only thread that removes the key
    sole: [Option<usize>; KEYS],
    touched: [bool; KEYS],
    sets: Vec<Vec<(usize, i64)>>,
    cardinality: Option<usize>,
}

fn spin(n: u32) {
    for _ in 0..n {
        std::hint::spin_loop()
    }
}
fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// One thread's part of one round.
fn act<K: Kind, S: Keys>(env: &Env, h: &Holder<K::M, S::L>, log: &Log, me: usize, ops: &[Op], rng: &mut u64) -> Own {
    let code = env.code;
    let x = code.sign(me) * code.amount(me);
    let mut own = Own {
        started: [0; KEYS], touched: [false; KEYS], live: [false; KEYS], gets: [0; KEYS], removed: [[0; MAX_T]; KEYS], removals: [0; KEYS],
        prev: [None; KEYS], prev_card: 0, stats: Stats::default(), errors: vec![],
    };
    let mut nth_set = 0;
    for (i, op) in ops.iter().enumerate() {
        let k = op.key;
        if env.plan.spin > 0 {
            *rng = mix(*rng);
            spin(*rng as u32 % env.plan.spin);
        }
        let start = |own: &mut Own| {
            own.started[k] += 1;
            if env.plan.log {
                log.started[me][k].store(own.started[k], Relaxed);
                log.touch_started[k].store(1, Relaxed);
                fence(SeqCst);
            }
        };
        let done = |own: &mut Own| {
            own.touched[k] = true;
            own.live[k] = true;
            if env.plan.log {
                fence(SeqCst);
                log.done[me][k].store(own.started[k], Relaxed);
                log.touched[k].store(1, Relaxed);
            }
        };
        match op.what {
            What::Update => {
                for _ in 0..op.n {
                    start(&mut own);
                    match h { Holder::Single(m) => K::update_single(m, x), Holder::Vec(v) => K::update(v, S::group(k), x) }
                    done(&mut own);
                }
                own.gets[k] += op.n;
                own.stats.updates += op.n as u64;
            }
            What::ById => {
                match h {
                    Holder::Single(m) => for _ in 0..op.n { start(&mut own); K::update_single(m, x); done(&mut own) },
                    Holder::Vec(v) => {
                        let id = v.with_labels(S::group(k));
                        for _ in 0..op.n { start(&mut own); K::update_id(v, id, x); done(&mut own) }
                    }
                }
                own.gets[k] += op.n;
                own.stats.updates += op.n as u64;
            }
            What::Held => {
                // n == 0 only creates
                if env.plan.log {
                    log.touch_started[k].store(1, Relaxed);
                    fence(SeqCst);
                }
                let g = match h { Holder::Single(m) => m.get_metric(), Holder::Vec(v) => v.get_metric(v.with_labels(S::group(k))) };
                for _ in 0..op.n {
                    start(&mut own);
                    K::update_held(&g, g.metadata(), x);
                    done(&mut own);
                }
                drop(g);
                done(&mut own);
                own.gets[k] += 1;
                own.stats.updates += op.n as u64;
            }
            What::Lookup => {
                if let Holder::Vec(v) = h {
                    if v.try_with_labels(S::group(k)).is_none() { own.errors.push(format!("key {k} is not contained")) }
                }
            }
            What::Set => {
                let (k, v) = env.sets[me][nth_set];
                nth_set += 1;
                if env.plan.log {
                    log.touch_started[k].store(1, Relaxed);
                    fence(SeqCst);
                }
                match h { Holder::Single(m) => K::set_single(m, v), Holder::Vec(s) => K::set(s, S::group(k), v) }
                own.touched[k] = true;
                own.live[k] = true;
                if env.plan.log {
                    fence(SeqCst);
                    log.touched[k].store(1, Relaxed);
                }
                own.gets[k] += 1;
                own.stats.updates += 1;
            }
            What::Remove => {
                let Holder::Vec(v) = h else { continue };
                let m = v.remove_metric(v.with_labels(S::group(k)));
                // nobody else removes it, so it exists since this thread used it
                if m.is_none() && own.live[k] && env.volatile[k] && env.sole[k] == Some(me) {
                    own.errors.push(format!("op {i}: key {k} exists, but removing it returns nothing"));
                }
                own.live[k] = false;
                if env.volatile[k] { own.prev[k] = None }
                if let Some(m) = m {
                    own.removals[k] += 1;
                    own.stats.removed += 1;
                    match K::state(m, code) {
                        Ok(d) => for t in 0..code.threads {
                            own.removed[k][t] += d[t];
                            if env.plan.log {
                                if t == 0 { fence(SeqCst) }
                                log.removed[t][k].fetch_add(d[t], Relaxed);
                            }
                        },
                        Err(e) => own.errors.push(format!("removed state of key {k}: {e}")),
                    }
                }
            }
            What::Cardinality => {
                let Holder::Vec(v) = h else { continue };
                let sure = (0..KEYS).filter(|k| !env.volatile[*k] && (own.touched[*k] || (env.plan.log && log.touched[*k].load(Relaxed) > 0))).count();
                fence(SeqCst);
                let (n, max) = v.get_cardinality();
                fence(SeqCst);
                let most = (0..KEYS).filter(|k| if env.plan.log { log.touch_started[*k].load(Relaxed) > 0 } else { env.touched[*k] }).count();
                if n < sure.max(own.prev_card) || n > most || max != env.cardinality {
                    own.errors.push(format!("cardinality ({n}, {max:?}), but at least {} and at most {most} label groups are in use, of {:?}", sure.max(own.prev_card), env.cardinality));
                }
                if !env.volatile.contains(&true) { own.prev_card = n }
            }
            What::Scrape => {
                let mut lo = [[0u32; KEYS]; MAX_T];
                let mut rem = [[0u32; KEYS]; MAX_T];
                let mut exists = own.touched;
                for t in 0..code.threads {
                    for k in 0..KEYS {
                        (lo[t][k], rem[t][k]) = if env.plan.log { (log.done[t][k].load(Relaxed), log.removed[t][k].load(Relaxed)) } else { (if t == me { own.started[k] } else { 0 }, own.removed[k][t]) };
                    }
                }
                // for the only thread that removes it, a label group stays while it does something else
                let volatile: [bool; KEYS] = std::array::from_fn(|k| env.volatile[k] && env.sole[k] != Some(me));
                for k in 0..KEYS {
                    exists[k] |= env.plan.log && log.touched[k].load(Relaxed) > 0;
                    if env.volatile[k] {
                        exists[k] = own.live[k];
                        for t in 0..code.threads { lo[t][k] = lo[t][k].saturating_sub(own.removed[k][t]) }
                    }
                }
                if env.plan.log { fence(SeqCst) }
                let r = scrape::<K, S>(h, env.hist, env.setmode, code, &env.texts);
                if env.plan.log { fence(SeqCst) }
                own.stats.scrapes += 1;
                let seen = match r { Ok(s) => s, Err(e) => { own.errors.push(e); continue } };
                let mut partial = false;
                for k in 0..KEYS {
                    let Some(s) = &seen[k] else {
                        if exists[k] && !volatile[k] { own.errors.push(format!("op {i}: key {k} exists but is not exported")) }
                        if own.prev[k].is_some() && !volatile[k] { own.errors.push(format!("op {i}: key {k} has gone from the export")) }
                        continue;
                    };
                    match s {
                        Seen::Raw(v) => if *v != 0 && !env.sets.iter().flatten().any(|(sk, sv)| *sk == k && sv == v) { own.errors.push(format!("op {i}: key {k} shows {v}, which nobody set")) },
                        Seen::Digits(d) => {
                            for t in 0..code.threads {
                                let hi = if env.plan.log { log.started[t][k].load(Relaxed) } else if t == me { own.started[k] } else { env.issued[t][k] };
                                let hi = hi.saturating_sub(rem[t][k]);
                                if d[t] > hi { own.errors.push(format!("op {i}: key {k} shows {} updates of thread {t}, but only {hi} can be in it", d[t])) }
                                if !volatile[k] && d[t] < lo[t][k] { own.errors.push(format!("op {i}: key {k} shows {} updates of thread {t}, but {} were complete before the scrape", d[t], lo[t][k])) }
                                if let Some(p) = own.prev[k] {
                                    if !volatile[k] && d[t] < p[t] { own.errors.push(format!("op {i}: key {k} went backwards: {} updates of thread {t} after {}", d[t], p[t])) }
                                }
                                partial |= d[t] > 0 && d[t] < env.issued[t][k];
                            }
                            own.prev[k] = Some(*d);
                        }
                    }
                }
                own.stats.partial += partial as u64;
            }
            What::Wait => if cfg!(miri) { std::thread::yield_now() } else { spin(op.n) },
        }
        PROGRESS.fetch_add(1, Relaxed);
        if own.errors.len() > 3 { break }
    }
    own
}

fn judge<K: Kind, S: Keys>(env: &Env, h: &Holder<K::M, S::L>, owns: &[Own]) -> Result<(), String> {
    for (t, o) in owns.iter().enumerate() {
        if let Some(e) = o.errors.first() { return Err(format!("thread {t}: {e}")) }
    }
    let end = scrape::<K, S>(h, env.hist, env.setmode, env.code, &env.texts).map_err(|e| format!("final scrape: {e}"))?;
    let single = matches!(h, Holder::Single(_));
    for k in 0..KEYS {
        let removals: u32 = owns.iter().map(|o| o.removals[k]).sum();
        let gets: u32 = owns.iter().map(|o| o.gets[k]).sum();
        if removals > gets { return Err(format!("key {k} was removed {removals} times but used only {gets} times")) }
        if end[k].is_some() && !env.touched[k] && !(single && k == 0) { return Err(format!("key {k} is exported but was never used")) }
        if end[k].is_none() && env.touched[k] && !env.volatile[k] { return Err(format!("key {k} is missing at the end")) }
        let now = match &end[k] {
            Some(Seen::Raw(v)) => {
                let last: Vec<i64> = env.sets.iter().filter_map(|s| s.iter().rev().find(|(sk, _)| *sk == k).map(|s| s.1)).collect();
                if !last.contains(v) && !(last.is_empty() && *v == 0) { return Err(format!("key {k} ends as {v}, but the threads' last values are {last:?}")) }
                continue;
            }
            Some(Seen::Digits(d)) => *d,
            None => [0; MAX_T],
        };
        for t in 0..env.code.threads {
            let removed: u32 = owns.iter().map(|o| o.removed[k][t]).sum();
            if now[t] + removed != env.issued[t][k] {
                return Err(format!("key {k}: thread {t} made {} updates, but {} are exported at the end and {removed} were removed", env.issued[t][k], now[t]));
            }
        }
    }
    if let Holder::Vec(v) = h {
        let n = end.iter().filter(|e| e.is_some()).count();
        if v.get_cardinality() != (n, env.cardinality) { return Err(format!("cardinality {:?} with {n} label groups of {:?} at the end", v.get_cardinality(), env.cardinality)) }
    }
    Ok(())
}

pub fn run<K: Kind, S: Keys>(plan: &Plan, hist: bool) -> Result<Stats, String> {
    let threads = plan.threads.len();
    assert!(threads <= MAX_T);
    let code = Code { threads, base: 1 << (48 / threads.max(3)).min(12), dec: plan.dec };
    let mut issued = [[0; KEYS]; MAX_T];
    let mut volatile = [false; KEYS];
    let mut removers = [[false; MAX_T]; KEYS];
    let mut touched = [false; KEYS];
    let mut sets = vec![vec![]; threads];
    let single = plan.store == "single";
    for (t, ops) in plan.threads.iter().enumerate() {
        for op in ops {
            assert!(op.key < KEYS && !(single && op.key > 0));
            match op.what {
                What::Update | What::ById => { issued[t][op.key] += op.n; touched[op.key] |= op.n > 0 }
                What::Held => { issued[t][op.key] += op.n; touched[op.key] = true }
                What::Set => { let n = sets[t].len() as i64; sets[t].push((op.key, (t as i64 + 1) * 1000 + n)); touched[op.key] = true }
                What::Remove => {
                    removers[op.key][t] = true;
                    volatile[op.key] |= plan.store != "dense" && !(plan.store == "default" && S::new().cardinality().is_some())
                }
                _ => {}
            }
        }
    }
    assert!(issued.iter().flatten().all(|n| (*n as i64) < code.base), "too many updates");
    let env = Env {
        plan, code, hist, setmode: sets.iter().any(|s| !s.is_empty()), texts: std::array::from_fn(S::text), issued, volatile, touched, sets,
        sole: std::array::from_fn(|k| (removers[k].iter().filter(|r| **r).count() == 1).then(|| removers[k].iter().position(|r| *r).unwrap())),
        cardinality: S::new().cardinality(),
    };
    let holders: Vec<Holder<K::M, S::L>> = (0..plan.rounds).map(|_| match &*plan.store {
        "single" => Holder::Single(Metric::with_metadata(K::meta(code))),
        "dense" => Holder::Vec(MetricVec::dense_with_label_set_and_metadata(S::new(), K::meta(code))),
        "sparse" => Holder::Vec(MetricVec::sparse_with_label_set_and_metadata(S::new(), K::meta(code))),
        "default" => Holder::Vec(MetricVec::with_label_set_and_metadata(S::new(), K::meta(code))),
        s => panic!("store {s}"),
    }).collect();
    let logs: Vec<Log> = (0..plan.rounds).map(|_| Log::default()).collect();
    #[cfg(not(miri))]
    let arrived = std::sync::atomic::AtomicUsize::new(0);
    #[cfg(miri)]
    let barrier = std::sync::Barrier::new(threads);
    let stop = AtomicBool::new(false);
    let outs: Vec<Mutex<Vec<Own>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
    std::thread::scope(|s| {
        for me in 0..threads {
            let (env, holders, logs, stop, outs) = (&env, &holders, &logs, &stop, &outs);
            #[cfg(not(miri))]
            let arrived = &arrived;
            #[cfg(miri)]
            let barrier = &barrier;
            s.spawn(move || {
                let mut rng = mix(plan.seed ^ ((me as u64) << 32));
                let mut mine = vec![];
                for r in 0..plan.rounds {
                    // all start a round together
                    #[cfg(miri)]
                    barrier.wait();
                    #[cfg(not(miri))]
                    {
                        arrived.fetch_add(1, SeqCst);
                        let mut waited = 0;
                        while arrived.load(SeqCst) < threads * (r + 1) && !stop.load(Relaxed) {
                            waited += 1;
                            // (who waits for long sleeps, so that threads that block each other show by using no time)
                            if waited > 100_000 { std::thread::sleep(std::time::Duration::from_millis(2)) } else if waited > 2000 { std::thread::yield_now() } else { std::hint::spin_loop() }
                        }
                    }
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| act::<K, S>(env, &holders[r], &logs[r], me, &plan.threads[me], &mut rng)));
                    match res {
                        Ok(o) => mine.push(o),
                        Err(p) => {
                            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            stop.store(true, Relaxed);
                            mine.push(Own { started: [0; KEYS], touched: [false; KEYS], live: [false; KEYS], gets: [0; KEYS], removed: [[0; MAX_T]; KEYS], removals: [0; KEYS], prev: [None; KEYS], prev_card: 0, stats: Stats::default(), errors: vec![format!("panicked: {msg}")] });
                        }
                    }
                    if stop.load(Relaxed) || !mine.last().unwrap().errors.is_empty() {
                        stop.store(true, Relaxed);
                        break;
                    }
                }
                *outs[me].lock().unwrap() = mine;
            });
        }
    });
    let mut all: Vec<Vec<Own>> = outs.into_iter().map(|o| o.into_inner().unwrap()).collect();
    let mut stats = Stats::default();
    let stopped = stop.load(SeqCst);
    for o in all.iter().flatten() {
        stats.add(&o.stats);
        if stopped { if let Some(e) = o.errors.first() { return Err(e.clone()) } }
    }
    let mut iters: Vec<_> = all.iter_mut().map(|v| v.drain(..)).collect();
    for (r, h) in holders.iter().enumerate() {
        let owns: Vec<Own> = iters.iter_mut().map(|i| i.next().unwrap()).collect();
        judge::<K, S>(&env, h, &owns).map_err(|e| format!("round {r}: {e}"))?;
    }
    Ok(stats)
}
