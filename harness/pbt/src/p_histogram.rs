//! C05-C07: histograms, bucket constructors, timers.
use crate::driver::*;
use crate::hist::want_histogram;
use crate::sets::{Three, Two, TwoSet, Code};
use crate::text::{self, same};
use crate::util::*;
use measured::metric::histogram::{HistogramTimer, HistogramVecTimer, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::MetricFamilyEncoding;
use measured::text::BufferedTextEncoder;
use measured::{FixedCardinalityLabel, Histogram, HistogramVec, LabelGroup};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

macro_rules! with_n {
    ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
        0 => $f::<0>($($a),*), 1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*),
        5 => $f::<5>($($a),*), 7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*), 13 => $f::<13>($($a),*), 32 => $f::<32>($($a),*),
        70 => $f::<70>($($a),*), 300 => $f::<300>($($a),*),
        _ => unreachable!(),
    } };
}
const NS: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 13, 32, 70, 300];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Layout {
    Explicit(Vec<Fl>),
    Linear { n: usize, start: Fl, width: Fl },
    Exponential { n: usize, start: Fl, factor: Fl },
}
impl Layout {
    fn n(&self) -> usize {
        match self {
            Layout::Explicit(v) => v.len(),
            Layout::Linear { n, .. } | Layout::Exponential { n, .. } => *n,
        }
    }
    fn build<const N: usize>(&self) -> Thresholds<N> {
        match self {
            Layout::Explicit(v) => Thresholds::with_buckets(std::array::from_fn(|i| v[i].0)),
            Layout::Linear { start, width, .. } => Thresholds::linear_buckets(start.0, width.0),
            Layout::Exponential { start, factor, .. } => Thresholds::exponential_buckets(start.0, factor.0),
        }
    }
}
fn layout() -> BoxedStrategy<Layout> {
    let explicit = (prop::sample::select(NS), prop::collection::vec(any_f64(), 40)).prop_map(|(n, v)| {
        let mut v: Vec<f64> = v.into_iter().map(|f| f.0).filter(|x| !x.is_nan() && *x != f64::INFINITY).collect();
        v.sort_by(f64::total_cmp);
        v.dedup_by(|a, b| a == b);
        // the number of buckets has to be one of NS
        let n = *NS.iter().filter(|k| **k <= v.len().min(n)).max().unwrap();
        let skip = (v.len() - n) / 2;
        Layout::Explicit(v[skip..skip + n].iter().map(|x| Fl(*x)).collect())
    });
    prop_oneof![
        3 => explicit,
        1 => (prop::sample::select(NS), -100i32..100, 1u32..200).prop_map(|(n, s, w)| Layout::Linear { n, start: Fl(s as f64 / 8.0), width: Fl(w as f64 / 10.0) }),
        1 => (prop::sample::select(NS), 1u32..1000, 1u32..40).prop_map(|(n, s, f)| Layout::Exponential { n, start: Fl(s as f64 / 1000.0), factor: Fl(1.0 + f as f64 / 8.0) }),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Via {
    Shared,
    Guard,
    Mut,
    /// the public inner state: shared, exclusive through the lock, exclusive, each given the bucket
    Inner,
    InnerWrite,
    InnerMut,
    /// exported, then observed exclusively
    Scraped,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Obs {
    Value(Fl),
    /// bound index, and -1/0/+1 for the float below/on/above it
    Bound(u8, i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    layout: Layout,
    obs: Vec<(Via, Obs)>,
    /// the observation at `i`, `n` more times
    again: Option<(u8, u32)>,
    /// 0: plain histogram; 1: dense collection; 2: sparse collection
    holder: u8,
    /// observations there were before, bucket by bucket: the state of so many is put there directly
    #[serde(default)]
    before: Vec<u64>,
}
fn put<const N: usize>(i: &mut measured::metric::histogram::HistogramStateInner<N>, before: &[u64]) {
    for (b, n) in i.buckets.iter().chain([&i.inf]).zip(before) {
        b.store(*n as _, std::sync::atomic::Ordering::Relaxed);
    }
}
fn step(x: f64, d: i8) -> f64 {
    match d { -1 => x.next_down(), 1 => x.next_up(), _ => x }
}

fn buckets<const N: usize>(c: &Case, ctx: &mut Ctx) -> Check {
    let th: Thresholds<N> = c.layout.build();
    let le = *th.get();
    if le.windows(2).any(|w| w[0].partial_cmp(&w[1]) != Some(std::cmp::Ordering::Less)) || le.iter().any(|x| !(*x < f64::INFINITY)) {
        ctx.label("skipped: rounding made bounds equal or infinite");
        return Ok(());
    }
    let mut obs = c.obs.clone();
    if let (Some((i, n)), false) = (c.again, obs.is_empty()) {
        let o = obs[i as usize % obs.len()].clone();
        obs.extend((0..n).map(|_| o.clone()));
        ctx.label("an observation many times");
    }
    let xs: Vec<f64> = obs.iter().map(|(_, o)| match o {
        Obs::Value(f) => f.0,
        Obs::Bound(i, d) => if N == 0 { *d as f64 } else { step(le[*i as usize % N], *d) },
    }).collect();
    let g = Two { kind: Three::Internal, code: Code::Oops };
    let name = MetricName::from_str("h");
    let mut enc = BufferedTextEncoder::new();
    let state;
    let before: Vec<u64> = if c.before.is_empty() { vec![] } else { (0..=N).map(|i| c.before[i % c.before.len()] >> if N > 30 { 4 } else { 0 }).collect() };
    let earlier = |i: usize| before.get(i).copied().unwrap_or(0);
    let mut scrapes = 20;
    // the first bucket whose bound is not below x
    let bucket = |x: f64| le.iter().position(|b| x <= *b).unwrap_or(N);
    if c.holder == 0 {
        let mut h = Histogram::with_metadata(th);
        put(h.get_metric_mut().inner.get_mut(), &before);
        for ((via, _), x) in obs.iter().zip(&xs) {
            match via {
                Via::Shared => h.observe(*x),
                Via::Guard => h.get_metric().observe(*x),
                Via::Mut => h.get_metric_mut().observe(*x),
                Via::Inner => h.get_metric().inner.read().observe(bucket(*x), *x),
                Via::InnerWrite => h.get_metric().inner.write().observe_mut(bucket(*x), *x),
                Via::InnerMut => h.get_metric_mut().inner.get_mut().observe_mut(bucket(*x), *x),
                Via::Scraped => {
                    if scrapes > 0 {
                        scrapes -= 1;
                        h.collect_family_into(name, &mut enc).unwrap();
                        enc.finish();
                    }
                    h.get_metric_mut().observe(*x)
                }
            }
        }
        h.collect_family_into(name, &mut enc).unwrap();
        if *h.get_metric().metadata().get() != le || *h.get_metric_mut().metadata().get() != le {
            return Err(format!("the bounds {le:?} are not those of the metric"));
        }
        let m = h.get_metric();
        let i = m.inner.read();
        state = read(&i);
    } else {
        let mut v = if c.holder == 1 { HistogramVec::<TwoSet, N>::dense_with_metadata(th) } else { HistogramVec::<TwoSet, N>::sparse_with_metadata(th) };
        let id = v.with_labels(g);
        if !before.is_empty() {
            put(v.get_metric_mut(id).inner.get_mut(), &before);
        }
        for ((via, _), x) in obs.iter().zip(&xs) {
            match via {
                Via::Shared => v.observe(g, *x),
                Via::Guard => v.get_metric(id).observe(*x),
                Via::Mut => v.get_metric_mut(id).observe(*x),
                Via::Inner => v.get_metric(id).inner.read().observe(bucket(*x), *x),
                Via::InnerWrite => v.get_metric(id).inner.write().observe_mut(bucket(*x), *x),
                Via::InnerMut => v.get_metric_mut(id).inner.get_mut().observe_mut(bucket(*x), *x),
                Via::Scraped => {
                    if scrapes > 0 {
                        scrapes -= 1;
                        v.collect_family_into(name, &mut enc).unwrap();
                        enc.finish();
                    }
                    v.get_metric_mut(id).observe(*x)
                }
            }
        }
        if obs.is_empty() {
            drop(v.get_metric(id));
        }
        v.collect_family_into(name, &mut enc).unwrap();
        if *v.metadata().get() != le || *v.get_metric(id).metadata().get() != le || *v.get_metric_mut(id).metadata().get() != le {
            return Err(format!("the bounds {le:?} are not those of the metric"));
        }
        let m = v.get_metric(id);
        let i = m.inner.read();
        state = read(&i);
    }
    let labels = if c.holder == 0 { vec![] } else { vec![("kind".to_owned(), "internal".to_owned()), ("code".to_owned(), "500".to_owned())] };
    // per bucket: at or below this bound and above the one before
    let at: Vec<u64> = le.iter().map(|b| xs.iter().filter(|x| *x <= b).count() as u64).collect();
    let per: Vec<u64> = (0..N).map(|i| earlier(i) + at[i] - if i > 0 { at[i - 1] } else { 0 }).collect();
    let inf = earlier(N) + xs.len() as u64 - at.last().copied().unwrap_or(0);
    let sum = xs.iter().fold(0.0, |a, x| a + x);
    if state.0 != per || state.1 != inf || !same(state.2, sum) {
        return Err(format!("bounds {le:?}, observations {:?}{}: state {state:?}, expected {:?}", &xs[..c.obs.len()], if xs.len() > c.obs.len() { " and one of them again" } else if !before.is_empty() { " after many others" } else { "" }, (per, inf, sum)));
    }
    let doc = enc.finish();
    let fams = text::parse(&doc, true)?;
    if fams.len() != 1 || fams[0].typ.as_deref() != Some("histogram") {
        return Err(format!("not one histogram family: {}", show(&doc)));
    }
    text::match_ordered(&want_histogram("h", &labels, &le, &per, inf, sum), &fams[0].samples)?;
    ctx.label(&format!("N={N}"));
    ctx.label_if(xs.iter().any(|x| x.is_nan()), "NaN observed");
    ctx.label_if(before.iter().any(|n| *n > u32::MAX as u64), "over 2^32 observations before");
    ctx.label_if(xs.iter().any(|x| le.contains(x)), "observation on a bound");
    ctx.label_if(xs.iter().any(|x| *x > le.last().copied().unwrap_or(f64::MAX)), "above the last bound");
    ctx.nontrivial_if(N >= 1 && xs.len() >= 2);
    Ok(())
}
fn read<const N: usize>(i: &measured::metric::histogram::HistogramStateInner<N>) -> (Vec<u64>, u64, f64) {
    use std::sync::atomic::Ordering::Relaxed;
    (i.buckets.iter().map(|b| b.load(Relaxed) as u64).collect(), i.inf.load(Relaxed) as u64, i.sum.get())
}
fn c05_check(c: &Case, ctx: &mut Ctx) -> Check {
    with_n!(c.layout.n(), buckets(c, ctx))
}
pub fn c05() -> Property {
    let case = || {
        let obs = prop_oneof![2 => any_f64().prop_map(Obs::Value), 2 => (any::<u8>(), -1i8..2).prop_map(|(i, d)| Obs::Bound(i, d))];
        (layout(), prop::collection::vec((prop::sample::select(&[Via::Shared, Via::Guard, Via::Mut, Via::Shared, Via::Guard, Via::Mut, Via::Inner, Via::InnerWrite, Via::InnerMut, Via::Scraped][..]), obs), 0..40), prop_oneof![200 => Just(None), 2 => (any::<u8>(), 1u32..2000).prop_map(Some), 1 => (any::<u8>(), 65_000u32..70_000).prop_map(Some)], 0u8..3,
            prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![1 => Just(0u64), 1 => any::<u32>().prop_map(|n| n as u64), 2 => (0u32..54, any::<u64>()).prop_map(|(s, x)| (1u64 << s).saturating_sub(3) + x % 6)], 1..8)])
            .prop_map(|(layout, obs, again, holder, before)| Case { layout, obs, again, holder, before })
    };
    Property {
        id: "C05",
        level: "exploration",
        rule: "generated bucket layouts and observation sequences over all of f64, half of them on or next to a bound; non-trivial = at least one bucket and two observations",
        arms: vec![Arm::new("buckets", 300000, 3000000, case, c05_check)],
    }
}

// ---- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ctor {
    n: usize,
    kind: u8,
    a: Fl,
    b: Fl,
    explicit: Vec<Fl>,
}
fn ctor<const N: usize>(c: &Ctor, ctx: &mut Ctx) -> Check {
    let (a, b) = (c.a.0, c.b.0);
    let close = |x: f64, y: f64, scale: f64| x == y || (x - y).abs() <= 1e-11 * scale || (x.is_infinite() && y.abs() > 1e300) || (y.is_infinite() && x.abs() > 1e300);
    match c.kind {
        0 => {
            let ok = b > 0.0;
            ctx.label(if ok { "linear valid" } else { "linear refused" });
            match (ok, catch(|| *Thresholds::<N>::linear_buckets(a, b).get())) {
                (true, Ok(le)) => {
                    for (i, x) in le.iter().enumerate() {
                        let want = a + b * i as f64;
                        if !close(*x, want, a.abs() + b * i as f64) {
                            return Err(format!("linear({a:?}, {b:?})[{i}] = {x:?}, expected {want:?}"));
                        }
                    }
                }
                (false, Err(_)) => {}
                (true, Err(p)) => return Err(format!("linear({a:?}, {b:?}) of {N} refused: {p}")),
                (false, Ok(le)) => return Err(format!("linear({a:?}, {b:?}) accepted: {le:?}")),
            }
        }
        1 => {
            let ok = a > 0.0 && b > 1.0;
            ctx.label(if ok { "exponential valid" } else { "exponential refused" });
            match (ok, catch(|| *Thresholds::<N>::exponential_buckets(a, b).get())) {
                (true, Ok(le)) => {
                    let (mut power, mut repeated) = (1.0, a);
                    for (i, x) in le.iter().enumerate() {
                        // Either way of computing the bound will do where they differ (when one of
                        // them loses precision below the normal range or overflows on the way).
                        let want = a * power;
                        let apart = want.abs() < 1e-290 || want.abs() > 1e290 || power > 1e290;
                        let ok = close(*x, want, want.abs()) || apart && (close(*x, repeated, repeated.abs()) || power > 1e290 && *x >= a);
                        if !ok {
                            return Err(format!("exponential({a:?}, {b:?})[{i}] = {x:?}, expected {want:?}"));
                        }
                        power *= b;
                        repeated *= b;
                    }
                }
                (false, Err(_)) => {}
                (true, Err(p)) => return Err(format!("exponential({a:?}, {b:?}) of {N} refused: {p}")),
                (false, Ok(le)) => return Err(format!("exponential({a:?}, {b:?}) accepted: {le:?}")),
            }
        }
        _ => {
            // longer arrays go on at both ends
            let e: Vec<f64> = c.explicit.iter().map(|x| x.0).collect();
            let off = if N > e.len() { (c.a.0.to_bits() as usize).wrapping_mul(0x9e37_79b9) % (N - e.len() + 1) } else { 0 };
            let arr: [f64; N] = std::array::from_fn(|i| match i {
                i if i < off => e[0] - e[0].abs().max(1.0) * (off - i) as f64,
                i if i - off < e.len() => e[i - off],
                i => { let l = e[e.len() - 1]; l + l.abs().max(1.0) * (i - off - e.len() + 1) as f64 }
            });
            if N == 1 && arr[0].is_nan() {
                return Ok(());
            }
            let ok = arr.windows(2).all(|w| w[0] < w[1]);
            ctx.label(if ok { "explicit valid" } else { "explicit refused" });
            match (ok, catch(|| *Thresholds::<N>::with_buckets(arr).get())) {
                (true, Ok(le)) => {
                    if le.iter().zip(&arr).any(|(x, y)| x.to_bits() != y.to_bits()) {
                        return Err(format!("with_buckets({arr:?}) gives {le:?}"));
                    }
                }
                (false, Err(_)) => {}
                (true, Err(p)) => return Err(format!("with_buckets({arr:?}) refused: {p}")),
                (false, Ok(_)) => return Err(format!("with_buckets({arr:?}) accepted")),
            }
        }
    }
    ctx.nontrivial_if(N >= 2);
    Ok(())
}
fn c06_check(c: &Ctor, ctx: &mut Ctx) -> Check {
    with_n!(c.n, ctor(c, ctx))
}
pub fn c06() -> Property {
    let param = || prop_oneof![
        4 => (-50i32..50).prop_map(|x| Fl(x as f64 / 8.0)),
        2 => (-1e4..1e4f64).prop_map(Fl),
        2 => prop::sample::select(vec![0.0, -0.0, 1.0, 1.0000000000000002, 0.9999999999999999, 5e-324, -5e-324, f64::MIN_POSITIVE, 1e-3, -1.0, 2.0, 1e100, 10.0]).prop_map(Fl),
    ];
    let case = move || {
        // mostly increasing, sometimes with one pair equal, swapped, or NaN
        let explicit = (prop::collection::vec(any_f64(), 32), 0u8..6, any::<u8>()).prop_map(|(v, fault, i)| {
            let mut w: Vec<f64> = v.into_iter().map(|f| f.0).filter(|x| !x.is_nan()).collect();
            w.sort_by(f64::total_cmp);
            w.dedup_by(|a, b| a == b);
            while w.len() < 32 {
                let l = w.last().copied().unwrap_or(0.0);
                let n = if l.is_infinite() { f64::MAX } else { l };
                w.pop();
                w.extend([n, n + n.abs().max(1.0)]);
                w.sort_by(f64::total_cmp);
                w.dedup_by(|a, b| a == b);
                if w.len() < 32 && w.last() == Some(&f64::INFINITY) { let x = w[0]; w.insert(0, if x.is_infinite() || x < -1e300 { 0.0 } else { x - x.abs().max(1.0) }); w.sort_by(f64::total_cmp); w.dedup_by(|a, b| a == b); if w.len() >= 32 { break } if x < -1e300 { w = (0..32).map(|i| i as f64).collect() } }
            }
            w.truncate(32);
            let i = i as usize % 31;
            match fault { 0 => w[i + 1] = w[i], 1 => w.swap(i, i + 1), 2 => w[i] = f64::NAN, _ => {} }
            w.into_iter().map(Fl).collect::<Vec<_>>()
        });
        (prop_oneof![9 => prop::sample::select(&NS[..10]), 1 => prop::sample::select(&NS[10..])], 0u8..3, param(), param(), explicit, any::<u8>()).prop_map(|(n, kind, a, b, mut explicit, rot)| {
            // let the fault fall within short arrays as well
            if n > 0 && n < 32 { let s = rot as usize % (32 - n + 1); explicit = explicit[s..].to_vec(); }
            Ctor { n, kind, a, b, explicit }
        })
    };
    Property {
        id: "C06",
        level: "exploration",
        rule: "generated constructor arguments, about half of them to be refused; non-trivial = at least two buckets",
        arms: vec![Arm::new("constructors", 400000, 2000000, case, c06_check)],
    }
}

// ---- C07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum T {
    /// observe a duration (ns) on group k through `how`
    Dur { k: u8, s: u64, ns: u32, how: u8 },
    Start { slot: u8, k: u8 },
    Observe { slot: u8 },
    /// 0: here, 1: while unwinding from a panic, 2: in another thread
    Drop { slot: u8, how: u8 },
    Forget { slot: u8 },
    /// an instant so many microseconds ago; negative: in the future
    Since { k: u8, how: u8, ago: i64 },
    Sleep { us: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Timers {
    holder: u8,
    big: bool,
    ops: Vec<T>,
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "g")]
pub enum G4 { A, B, C, D }
const G: [G4; 4] = [G4::A, G4::B, G4::C, G4::D];
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = G4Set)]
struct G4G { g: G4 }

type Snap = (u64, f64, Vec<u64>, u64);
fn snap(m: &measured::metric::histogram::HistogramState<3>) -> Snap {
    let (b, inf, sum) = read(&m.inner.read());
    (b.iter().sum::<u64>() + inf, sum, b, inf)
}
const TB: [f64; 3] = [0.000001, 0.001, 2.0];
/// The histogram `after` one more observation of `x`.
fn plus(before: &Snap, x: f64) -> Snap {
    let mut s = before.clone();
    s.0 += 1;
    s.1 += x;
    match TB.iter().position(|b| x <= *b) { Some(i) => s.2[i] += 1, None => s.3 += 1 }
    s
}

fn timers(c: &Timers, ctx: &mut Ctx) -> Check {
    // One plain histogram and one collection; k == 4 is the plain one.
    let plain = Histogram::with_metadata(Thresholds::<3>::with_buckets(TB));
    let vec = match c.holder {
        0 => HistogramVec::<G4Set, 3>::dense_with_metadata(Thresholds::with_buckets(TB)),
        _ => HistogramVec::<G4Set, 3>::sparse_with_metadata(Thresholds::with_buckets(TB)),
    };
    let snaps = || -> Vec<Snap> {
        let mut v: Vec<Snap> = G.iter().map(|g| snap(&vec.get_metric(vec.with_labels(G4G { g: *g })))).collect();
        v.push(snap(&plain.get_metric()));
        v
    };
    enum Timer<'a> {
        P(HistogramTimer<'a, 3>),
        V(HistogramVecTimer<'a, G4Set, 3>),
    }
    // (timer, group, instants around its start)
    let mut slots: Vec<Option<(Timer, usize, Instant, Instant)>> = (0..4).map(|_| None).collect();
    let mut cur = snaps();
    let mut timed = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let err = |m: String| Err(format!("op {i} {op:?}: {m}"));
        // group, exact seconds or bounds on them
        let mut hit: Option<(usize, Result<f64, (f64, f64)>)> = None;
        let t0 = Instant::now();
        match op {
            T::Dur { k, s, ns, how } => {
                let k = *k as usize % 5;
                let d = Duration::new(if c.big { *s } else { *s % 10 }, *ns % 1_000_000_000);
                match (k, how % 3) {
                    (4, _) => plain.get_metric().observe_duration(d),
                    (_, 0) => vec.observe_duration(G4G { g: G[k] }, d),
                    _ => vec.get_metric(vec.with_labels(G4G { g: G[k] })).observe_duration(d),
                }
                hit = Some((k, Ok(d.as_secs_f64())));
            }
            T::Since { k, how, ago } => {
                let at = if *ago < 0 { t0 + Duration::from_micros(ago.unsigned_abs()) } else { t0.checked_sub(Duration::from_micros(*ago as u64)).unwrap_or(t0) };
                let k = *k as usize % 5;
                let ret = match (k, how % 2) {
                    (4, _) => plain.get_metric().observe_duration_since(at),
                    (_, 0) => vec.observe_duration_since(G4G { g: G[k] }, at),
                    _ => vec.get_metric(vec.with_labels(G4G { g: G[k] })).observe_duration_since(at),
                };
                // the elapsed time since an instant in the future is none
                if ret > at.elapsed() || ret < t0.saturating_duration_since(at) {
                    return err(format!("returned {ret:?}, but {:?} to {:?} passed", t0.saturating_duration_since(at), at.elapsed()));
                }
                ctx.label_if(*ago < 0, "since an instant in the future");
                hit = Some((k, Ok(ret.as_secs_f64())));
            }
            T::Start { slot, k } => {
                let (s, k) = (*slot as usize % 4, *k as usize % 5);
                if slots[s].is_some() {
                    continue;
                }
                let t = if k == 4 { Timer::P(plain.start_timer()) } else { Timer::V(vec.start_timer(G4G { g: G[k] })) };
                slots[s] = Some((t, k, t0, Instant::now()));
            }
            T::Observe { slot } => {
                let Some((t, k, a, b)) = slots[*slot as usize % 4].take() else { continue };
                let ret = match t { Timer::P(t) => t.observe(), Timer::V(t) => t.observe() };
                let (lo, hi) = (t0 - b, Instant::now() - a);
                if ret < lo || ret > hi {
                    return err(format!("the timer returned {ret:?}, but between {lo:?} and {hi:?} passed"));
                }
                hit = Some((k, Ok(ret.as_secs_f64())));
                timed += 1;
            }
            T::Drop { slot, how } => {
                let Some((t, k, a, b)) = slots[*slot as usize % 4].take() else { continue };
                match how % 3 {
                    0 => drop(t),
                    1 => {
                        let r = catch(|| {
                            let _t = t;
                            panic!("unwinding")
                        });
                        let () = r.err().map(|_| ()).unwrap();
                        ctx.label("dropped while unwinding");
                    }
                    _ => std::thread::scope(|s| s.spawn(move || drop(t)).join()).unwrap(),
                }
                hit = Some((k, Err(((t0 - b).as_secs_f64(), (Instant::now() - a).as_secs_f64()))));
                timed += 1;
            }
            T::Forget { slot } => {
                let Some((t, ..)) = slots[*slot as usize % 4].take() else { continue };
                match t { Timer::P(t) => t.forget(), Timer::V(t) => t.forget() }
                ctx.label("forgot a timer");
            }
            T::Sleep { us } => std::thread::sleep(Duration::from_micros(*us as u64 % 300)),
        }
        let after = snaps();
        for g in 0..5 {
            let ok = match hit {
                Some((h, Ok(x))) if h == g => eq(&after[g], &plus(&cur[g], x)),
                Some((h, Err((lo, hi)))) if h == g => {
                    let (a, b) = (&after[g], &cur[g]);
                    let d = a.1 - b.1;
                    let slack = 1e-12 + b.1.abs() * 1e-14;
                    // one more observation, of the elapsed time, in one of the buckets such a time belongs to
                    a.0 == b.0 + 1 && (c.big || (d >= lo - slack && d <= hi + slack))
                        && [lo, hi].iter().any(|x| { let p = plus(b, *x); p.2 == a.2 && p.3 == a.3 }) | (0..4).any(|i| {
                            let mut p = (*b).clone();
                            if i < 3 { p.2[i] += 1 } else { p.3 += 1 }
                            let above = i == 0 || hi >= TB[i - 1];
                            let below = i == 3 || lo <= TB[i];
                            above && below && p.2 == a.2 && p.3 == a.3
                        })
                }
                _ => eq(&after[g], &cur[g]),
            };
            if !ok {
                return err(format!("histogram {g} went from {:?} to {:?} (expected {hit:?})", cur[g], after[g]));
            }
        }
        cur = after;
    }
    // Timers still running observe when they go out of scope.
    let mut left = [0u64; 5];
    for s in slots.iter_mut() {
        if let Some((t, k, ..)) = s.take() {
            left[k] += 1;
            drop(t);
        }
    }
    for (g, s) in snaps().iter().enumerate() {
        if s.0 != cur[g].0 + left[g] {
            return Err(format!("histogram {g} has {} observations, expected {}", s.0, cur[g].0 + left[g]));
        }
    }
    ctx.label_if(timed > 0, "timer observed or dropped");
    ctx.nontrivial_if(c.ops.len() >= 3);
    Ok(())
}
/// durations through exclusive access
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Excl {
    holder: u8,
    /// group, seconds, nanoseconds; since: an instant that long ago instead
    ops: Vec<(u8, u64, u32, bool)>,
}
fn exclusive(c: &Excl, ctx: &mut Ctx) -> Check {
    let mut plain = Histogram::with_metadata(Thresholds::<3>::with_buckets(TB));
    let mut vec = match c.holder {
        0 => HistogramVec::<G4Set, 3>::dense_with_metadata(Thresholds::with_buckets(TB)),
        _ => HistogramVec::<G4Set, 3>::sparse_with_metadata(Thresholds::with_buckets(TB)),
    };
    let mut model: Vec<Option<Snap>> = vec![None; 4];
    let mut model_plain: Snap = (0, 0.0, vec![0; 3], 0);
    for (i, (k, s, ns, since)) in c.ops.iter().enumerate() {
        let k = *k as usize % 5;
        let d = Duration::new(*s, *ns % 1_000_000_000);
        let m = if k == 4 {
            plain.get_metric_mut()
        } else {
            let id = vec.with_labels(G4G { g: G[k] });
            vec.get_metric_mut(id)
        };
        let d = match Instant::now().checked_sub(d) {
            Some(at) if *since => {
                let (lo, ret, hi) = (at.elapsed(), m.observe_duration_since(at), at.elapsed());
                if ret < lo || ret > hi {
                    return Err(format!("op {i}: returned {ret:?}, but {lo:?} to {hi:?} passed"));
                }
                ctx.label("since");
                ret
            }
            _ => {
                m.observe_duration(d);
                d
            }
        };
        if k == 4 {
            model_plain = plus(&model_plain, d.as_secs_f64());
        } else {
            let before = model[k].take().unwrap_or((0, 0.0, vec![0; 3], 0));
            model[k] = Some(plus(&before, d.as_secs_f64()));
        }
        let got = snap(&plain.get_metric());
        if !eq(&got, &model_plain) {
            return Err(format!("op {i}: the plain histogram is {got:?}, expected {model_plain:?}"));
        }
        if vec.get_cardinality().0 != model.iter().flatten().count() {
            return Err(format!("op {i}: {:?} groups, expected {}", vec.get_cardinality(), model.iter().flatten().count()));
        }
        for (k, want) in model.iter().enumerate() {
            let Some(want) = want else { continue };
            let got = snap(&vec.get_metric(vec.with_labels(G4G { g: G[k] })));
            if !eq(&got, want) {
                return Err(format!("op {i}: group {k} is {got:?}, expected {want:?}"));
            }
        }
    }
    ctx.nontrivial_if(c.ops.len() >= 3);
    Ok(())
}
fn eq(a: &Snap, b: &Snap) -> bool {
    a.0 == b.0 && same(a.1, b.1) && a.2 == b.2 && a.3 == b.3
}
pub fn c07() -> Property {
    let case = || {
        let ns = prop_oneof![2 => 0u128..5_000_000_000, 2 => 0u128..3_000_000, 1 => any::<u64>().prop_map(|x| x as u128), 1 => 0u128..(u64::MAX as u128) * 1_000_000_000 + 999_999_999,
            2 => prop::sample::select(vec![0u128, 1, 999, 1000, 1001, 1_000_000, 1_000_001, 999_999_999, 1_000_000_000, 2_000_000_000, 2_000_000_001, 1_500_000_000, 10_001_999_999])];
        let op = prop_oneof![
            4 => (any::<u8>(), ns, any::<u8>()).prop_map(|(k, ns, how)| T::Dur { k, s: (ns / 1_000_000_000) as u64, ns: (ns % 1_000_000_000) as u32, how }),
            5 => (0u8..4, any::<u8>()).prop_map(|(slot, k)| T::Start { slot, k }),
            3 => (0u8..4).prop_map(|slot| T::Observe { slot }),
            3 => (0u8..4, prop_oneof![8 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8)]).prop_map(|(slot, how)| T::Drop { slot, how }),
            2 => (0u8..4).prop_map(|slot| T::Forget { slot }),
            2 => (any::<u8>(), any::<u8>(), prop_oneof![2 => Just(0i64), 1 => -1000i64..3000, 1 => -100_000_000_000i64..0, 2 => 0i64..100_000_000]).prop_map(|(k, how, ago)| T::Since { k, how, ago }),
            1 => any::<u16>().prop_map(|us| T::Sleep { us }),
        ];
        (0u8..2, prop::bool::weighted(0.2), prop::collection::vec(op, 1..30)).prop_map(|(holder, big, ops)| Timers { holder, big, ops })
    };
    let excl = || {
        let ns = prop_oneof![3 => 0u128..5_000_000_000, 2 => 0u128..3_000_000, 1 => 0u128..100_000_000_000_000, 1 => 0u128..(u64::MAX as u128) * 1_000_000_000 + 999_999_999];
        (0u8..2, prop::collection::vec((any::<u8>(), ns, any::<bool>()).prop_map(|(k, ns, since)| (k, (ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32, since)), 1..20)).prop_map(|(holder, ops)| Excl { holder, ops })
    };
    Property {
        id: "C07",
        level: "exploration",
        rule: "generated histories of durations and timers over a plain histogram and four label groups; after each op every histogram is compared; non-trivial = at least three ops",
        arms: vec![Arm::new("timers", 100000, 1000000, case, timers), Arm::new("exclusive", 100000, 1000000, excl, exclusive)],
    }
}
