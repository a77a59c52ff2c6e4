//! Operation histories on labelled metric collections and their map model.
use crate::driver::{Check, Ctx};
use crate::sets::*;
use crate::text::{self, same, Num, Want};
use measured::label::LabelGroupSet;
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{LabelId, MetricEncoding, MetricFamilyEncoding, MetricLockGuard, MetricMut, MetricType, MetricVec};
use measured::text::BufferedTextEncoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Upd {
    pub op: u8,
    pub v: i32,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Vec,
    Guard,
    VecMut,
    Mut,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Upd { k: u32, how: How, u: Upd },
    Touch { k: u32 },
    Query { k: u32 },
    Outside { k: u32, o: u32 },
    Save { k: u32, slot: u8 },
    UpdSaved { slot: u8, ex: bool, u: Upd },
    Remove { k: u32 },
    RemoveSaved { slot: u8 },
    InitAll,
    Card,
    Scrape,
    Bulk { from: u32, n: u32, how: How, u: Upd },
    BulkRemove { from: u32, n: u32, step: u32 },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Repr {
    Default,
    Dense,
    Sparse,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum KindTag {
    Counter,
    Gauge,
    Float,
    Histogram,
    Own,
}

#[derive(Clone, Copy, Debug)]
pub enum Model {
    C(u64),
    G(i64),
    F(f64),
    H { b: [u64; 3], inf: u64, sum: f64 },
    X(u64),
}
impl PartialEq for Model {
    fn eq(&self, o: &Model) -> bool {
        match (self, o) {
            (Model::C(a), Model::C(b)) => a == b,
            (Model::G(a), Model::G(b)) => a == b,
            (Model::X(a), Model::X(b)) => a == b,
            (Model::F(a), Model::F(b)) => same(*a, *b),
            (Model::H { b, inf, sum }, Model::H { b: b2, inf: i2, sum: s2 }) => b == b2 && inf == i2 && same(*sum, *s2),
            _ => false,
        }
    }
}

pub const LE: [f64; 3] = [-1.0, 0.5, 100.0];

pub trait Kind: 'static {
    type M: MetricType<Metadata: Send + Sync> + MetricEncoding<BufferedTextEncoder> + Send + Sync;
    fn metadata() -> <Self::M as MetricType>::Metadata;
    fn zero() -> Model;
    fn model(m: &mut Model, u: Upd);
    fn vec<L: LabelGroupSet>(v: &MetricVec<Self::M, L>, g: L::Group<'_>, u: Upd);
    fn vec_mut<L: LabelGroupSet>(v: &mut MetricVec<Self::M, L>, g: L::Group<'_>, u: Upd) {
        let id = v.with_labels(g);
        Self::ex(v.get_metric_mut(id), u)
    }
    fn guard(g: MetricLockGuard<'_, Self::M>, u: Upd);
    fn ex(g: MetricMut<'_, Self::M>, u: Upd);
    fn read(m: &mut Self::M) -> Model;
    fn want(m: &Model, name: &str, labels: Labels) -> Vec<Want>;
    /// The constructors that take no metadata, where there are any.
    fn thin<L: LabelGroupSet>(_: L, _: Repr) -> Result<MetricVec<Self::M, L>, ()> {
        Err(())
    }
    /// Metric states alive, where they can be counted.
    fn alive() -> i64 {
        0
    }
}
macro_rules! thin { () => {
    fn thin<L: LabelGroupSet>(set: L, repr: Repr) -> Result<MetricVec<Self::M, L>, ()> {
        Ok(match repr {
            Repr::Default => MetricVec::with_label_set(set),
            Repr::Dense => MetricVec::dense_with_label_set(set),
            Repr::Sparse => MetricVec::sparse_with_label_set(set),
        })
    }
} }

pub struct KC;
pub struct KG;
pub struct KF;
pub struct KH;
fn uval(u: Upd) -> u64 {
    u.v.unsigned_abs() as u64
}
fn one(name: &str, labels: Labels, value: Num) -> Vec<Want> {
    vec![Want { name: name.to_owned(), labels, value }]
}
impl Kind for KC {
    type M = CounterState;
    thin!();
    fn metadata() {}
    fn zero() -> Model {
        Model::C(0)
    }
    fn model(m: &mut Model, u: Upd) {
        let Model::C(c) = m else { unreachable!() };
        *c += if u.op % 2 == 0 { 1 } else { uval(u) };
    }
    fn vec<L: LabelGroupSet>(v: &MetricVec<CounterState, L>, g: L::Group<'_>, u: Upd) {
        if u.op % 2 == 0 { v.inc(g) } else { v.inc_by(g, uval(u)) }
    }
    fn vec_mut<L: LabelGroupSet>(v: &mut MetricVec<CounterState, L>, g: L::Group<'_>, u: Upd) {
        if u.op % 2 == 0 { v.inc_mut(g) } else { v.inc_by_mut(g, uval(u)) }
    }
    fn guard(g: MetricLockGuard<'_, CounterState>, u: Upd) {
        if u.op % 2 == 0 { g.inc() } else { g.inc_by(uval(u)) }
    }
    fn ex(g: MetricMut<'_, CounterState>, u: Upd) {
        if u.op % 2 == 0 { g.inc() } else { g.inc_by(uval(u)) }
    }
    fn read(m: &mut CounterState) -> Model {
        Model::C(*m.count.get_mut())
    }
    fn want(m: &Model, name: &str, labels: Labels) -> Vec<Want> {
        let Model::C(c) = m else { unreachable!() };
        one(name, labels, Num::Int(*c as i128))
    }
}
macro_rules! gauge_kind { ($k:ident, $state:ident, $variant:ident, $t:ty, $conv:expr, $one:expr, $read:expr, $num:expr) => {
    impl Kind for $k {
        type M = $state;
        thin!();
        fn metadata() {}
        fn zero() -> Model { Model::$variant(Default::default()) }
        fn model(m: &mut Model, u: Upd) {
            let Model::$variant(c) = m else { unreachable!() };
            let v: $t = $conv(u.v);
            match u.op % 5 { 0 => *c += $one, 1 => *c += v, 2 => *c -= $one, 3 => *c -= v, _ => *c = v }
        }
        fn vec<L: LabelGroupSet>(s: &MetricVec<$state, L>, g: L::Group<'_>, u: Upd) {
            let v: $t = $conv(u.v);
            match u.op % 5 { 0 => s.inc(g), 1 => s.inc_by(g, v), 2 => s.dec(g), 3 => s.dec_by(g, v), _ => s.set(g, v) }
        }
        fn guard(g: MetricLockGuard<'_, $state>, u: Upd) {
            let v: $t = $conv(u.v);
            match u.op % 5 { 0 => g.inc(), 1 => g.inc_by(v), 2 => g.dec(), 3 => g.dec_by(v), _ => g.set(v) }
        }
        fn ex(g: MetricMut<'_, $state>, u: Upd) {
            let v: $t = $conv(u.v);
            match u.op % 5 { 0 => g.inc(), 1 => g.inc_by(v), 2 => g.dec(), 3 => g.dec_by(v), _ => g.set(v) }
        }
        fn read(m: &mut $state) -> Model { Model::$variant($read(m)) }
        fn want(m: &Model, name: &str, labels: Labels) -> Vec<Want> {
            let Model::$variant(c) = m else { unreachable!() };
            one(name, labels, $num(*c))
        }
    }
} }
gauge_kind!(KG, GaugeState, G, i64, |v: i32| v as i64 * 1_000_003, 1, |m: &mut GaugeState| *m.count.get_mut(), |c: i64| Num::Int(c as i128));
gauge_kind!(KF, FloatGaugeState, F, f64, |v: i32| v as f64 * 0.1, 1.0, |m: &mut FloatGaugeState| m.count.get_ex(), Num::F);
fn hval(u: Upd) -> f64 {
    // a good share of values on the bounds
    match u.v % 4 { 0 => LE[u.v.unsigned_abs() as usize / 4 % 3], _ => u.v as f64 / 8.0 }
}
fn hdur(u: Upd) -> Duration {
    Duration::from_millis(uval(u))
}
impl Kind for KH {
    type M = HistogramState<3>;
    fn metadata() -> Thresholds<3> {
        Thresholds::with_buckets(LE)
    }
    fn zero() -> Model {
        Model::H { b: [0; 3], inf: 0, sum: 0.0 }
    }
    fn model(m: &mut Model, u: Upd) {
        let Model::H { b, inf, sum } = m else { unreachable!() };
        let x = if u.op % 3 < 2 { hval(u) } else { hdur(u).as_secs_f64() };
        match LE.iter().position(|le| x <= *le) {
            Some(i) => b[i] += 1,
            None => *inf += 1,
        }
        *sum += x;
    }
    fn vec<L: LabelGroupSet>(v: &MetricVec<Self::M, L>, g: L::Group<'_>, u: Upd) {
        if u.op % 3 < 2 { v.observe(g, hval(u)) } else { v.observe_duration(g, hdur(u)) }
    }
    fn guard(g: MetricLockGuard<'_, Self::M>, u: Upd) {
        if u.op % 3 < 2 { g.observe(hval(u)) } else { g.observe_duration(hdur(u)) }
    }
    fn ex(g: MetricMut<'_, Self::M>, u: Upd) {
        if u.op % 3 < 2 { g.observe(hval(u)) } else { g.observe_duration(hdur(u)) }
    }
    fn read(m: &mut Self::M) -> Model {
        let i = m.inner.get_mut();
        let mut b = [0; 3];
        for (x, y) in b.iter_mut().zip(i.buckets.iter_mut()) {
            *x = *y.get_mut()
        }
        Model::H { b, inf: *i.inf.get_mut(), sum: i.sum.get_ex() }
    }
    fn want(m: &Model, name: &str, labels: Labels) -> Vec<Want> {
        let Model::H { b, inf, sum } = m else { unreachable!() };
        want_histogram(name, &labels, &LE, b, *inf, *sum)
    }
}

/// A metric of the user's own: it starts at 7, and its metadata says how much an update weighs.
pub struct KX;
pub struct Own(u64);
pub struct Weight(u64);
std::thread_local! { static OWN: std::cell::Cell<i64> = const { std::cell::Cell::new(0) } }
impl Default for Weight {
    fn default() -> Weight {
        Weight(3)
    }
}
impl Default for Own {
    fn default() -> Own {
        OWN.with(|n| n.set(n.get() + 1));
        Own(7)
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        OWN.with(|n| n.set(n.get() - 1));
        self.0 = 0xdead;
    }
}
pub struct OwnState(std::sync::atomic::AtomicU64, Own);
impl Default for OwnState {
    fn default() -> OwnState {
        let o = Own::default();
        OwnState(o.0.into(), o)
    }
}
impl MetricType for OwnState {
    type Metadata = Weight;
}
impl<W: std::io::Write> MetricEncoding<measured::text::TextEncoder<W>> for OwnState {
    fn write_type(name: impl measured::metric::name::MetricNameEncoder, enc: &mut measured::text::TextEncoder<W>) -> std::io::Result<()> {
        enc.write_type(&name, measured::text::MetricType::Untyped)
    }
    fn collect_into(&self, m: &Weight, labels: impl measured::LabelGroup, name: impl measured::metric::name::MetricNameEncoder, enc: &mut measured::text::TextEncoder<W>) -> std::io::Result<()> {
        let n = self.0.load(std::sync::atomic::Ordering::Relaxed);
        let n = if self.1.0 == 7 { n } else { u64::MAX };
        measured::metric::counter::write_counter(enc, name, labels, n * 10 + m.0)
    }
}
impl Kind for KX {
    type M = OwnState;
    thin!();
    fn metadata() -> Weight {
        Weight(3)
    }
    fn zero() -> Model {
        Model::X(7)
    }
    fn model(m: &mut Model, u: Upd) {
        let Model::X(c) = m else { unreachable!() };
        *c += 3 * uval(u);
    }
    fn vec<L: LabelGroupSet>(v: &MetricVec<OwnState, L>, g: L::Group<'_>, u: Upd) {
        Self::guard(v.get_metric(v.with_labels(g)), u)
    }
    fn guard(g: MetricLockGuard<'_, OwnState>, u: Upd) {
        g.0.fetch_add(g.metadata().0 * uval(u), std::sync::atomic::Ordering::Relaxed);
    }
    fn ex(mut g: MetricMut<'_, OwnState>, u: Upd) {
        let w = g.metadata().0;
        *g.0.get_mut() += w * uval(u);
    }
    fn read(m: &mut OwnState) -> Model {
        Model::X(if m.1.0 == 7 { *m.0.get_mut() } else { u64::MAX })
    }
    fn want(m: &Model, name: &str, labels: Labels) -> Vec<Want> {
        let Model::X(c) = m else { unreachable!() };
        one(name, labels, Num::Int(*c as i128 * 10 + 3))
    }
    fn alive() -> i64 {
        OWN.with(|n| n.get())
    }
}

pub fn want_histogram(name: &str, labels: &Labels, le: &[f64], buckets: &[u64], inf: u64, sum: f64) -> Vec<Want> {
    let mut out = vec![];
    let mut cum: u128 = 0;
    for (i, b) in buckets.iter().chain([&inf]).enumerate() {
        cum += *b as u128;
        let mut l = labels.clone();
        l.push(("le".into(), match le.get(i) { Some(le) => format!("{le:?}"), None => "+Inf".into() }));
        out.push(Want { name: format!("{name}_bucket"), labels: l, value: Num::Int(cum as i128) });
    }
    out.push(Want { name: format!("{name}_sum"), labels: labels.clone(), value: Num::F(sum) });
    out.push(Want { name: format!("{name}_count"), labels: labels.clone(), value: Num::Int(cum as i128) });
    out
}

/// The `i`th key of a subject, enumerating all its keys.
pub fn nth<S: Subject>(s: &S, i: u32) -> Option<Key> {
    let mut i = i as u64;
    let mut key = vec![];
    for d in s.dims() {
        let n = match d {
            Dim::Fixed { n, .. } => n,
            Dim::Dynamic { universe } => universe,
        } as u64;
        if n == 0 {
            return None;
        }
        key.push((i % n) as u32);
        i /= n;
    }
    Some(key)
}
pub fn key_count<S: Subject>(s: &S) -> u64 {
    s.dims().iter().map(|d| match d { Dim::Fixed { n, .. } => *n, Dim::Dynamic { universe } => *universe } as u64).product()
}

/// `thin`: with the constructors that take no metadata, where there are any.
pub fn build<K: Kind, S: Subject>(s: &S, repr: Repr, thin: bool) -> MetricVec<K::M, S::Set> {
    if thin {
        let repr = if repr == Repr::Dense && s.cardinality().is_none() { Repr::Sparse } else { repr };
        if let Ok(v) = K::thin(s.new_set(), repr) {
            return v;
        }
    }
    match repr {
        Repr::Default => MetricVec::with_label_set_and_metadata(s.new_set(), K::metadata()),
        Repr::Dense if s.cardinality().is_some() => MetricVec::dense_with_label_set_and_metadata(s.new_set(), K::metadata()),
        _ => MetricVec::sparse_with_label_set_and_metadata(s.new_set(), K::metadata()),
    }
}

pub const NAME: &str = "m";
pub fn scrape<K: Kind, L: LabelGroupSet>(v: &MetricVec<K::M, L>) -> Vec<u8> {
    let mut enc = BufferedTextEncoder::new();
    v.collect_family_into(MetricName::from_str(NAME), &mut enc).unwrap();
    enc.finish().to_vec()
}
pub fn samples(doc: &[u8]) -> Result<Vec<text::Sample>, String> {
    let f = text::parse(doc, true)?;
    if f.len() > 1 || f.iter().any(|f| f.name != NAME) {
        return Err(format!("expected the one family {NAME}, got {:?}", f.iter().map(|f| &f.name).collect::<Vec<_>>()));
    }
    Ok(f.into_iter().flat_map(|f| f.samples).collect())
}

/// Does this default collection behave as a dense one? (Only removal can tell.)
fn probe_dense<K: Kind, S: Subject>(s: &S, thin: bool) -> bool {
    let v = build::<K, S>(s, Repr::Default, thin);
    let Some(k) = nth(s, 0) else { return s.cardinality().is_some() };
    let id = v.with_labels(s.group(&k));
    drop(v.get_metric(id));
    v.remove_metric(id).is_none()
}

/// Runs a history against the map model, checking the export, the cardinality and every return value.
pub fn run_model<K: Kind, S: Subject>(s: &S, repr: Repr, ops: &[Op], ctx: &mut Ctx) -> Check {
    let alive = K::alive();
    let thin = ops.len() % 2 == 1;
    let v = build::<K, S>(s, repr, thin);
    ctx.label_if(thin, "constructor without metadata");
    let dense = match repr {
        Repr::Default => probe_dense::<K, S>(s, thin),
        Repr::Dense => s.cardinality().is_some(),
        Repr::Sparse => false,
    };
    if dense && s.cardinality().is_none() {
        return Err("a collection of unknown cardinality refuses removal".into());
    }
    run_on::<K, S>(s, v, dense, ops, ctx)?;
    match K::alive() - alive {
        0 => Ok(()),
        n => Err(format!("{n} more metrics were created than dropped")),
    }
}
/// `dense`: the collection is dense, and removes nothing.
pub fn run_on<K: Kind, S: Subject>(s: &S, mut v: MetricVec<K::M, S::Set>, dense: bool, ops: &[Op], ctx: &mut Ctx) -> Check {
    let mut model: BTreeMap<Key, Model> = BTreeMap::new();
    let mut saved: BTreeMap<u8, (Key, LabelId<S::Set>)> = BTreeMap::new();
    let mut updates = 0u64;
    let mut removed_live = 0u64;
    let mut recreated = 0u64;
    let mut gone: std::collections::BTreeSet<Key> = Default::default();
    for (i, op) in ops.iter().enumerate() {
        let at = |m: String| format!("op {i} {op:?}: {m}");
        match op {
            Op::Upd { k, how, u } => {
                let Some(k) = nth(s, *k) else { continue };
                update::<K, S>(s, &mut v, &k, *how, *u);
                K::model(model.entry(k.clone()).or_insert_with(K::zero), *u);
                recreated += gone.remove(&k) as u64;
                updates += 1;
            }
            Op::Touch { k } => {
                let Some(k) = nth(s, *k) else { continue };
                drop(v.get_metric(v.with_labels(s.group(&k))));
                model.entry(k).or_insert_with(K::zero);
            }
            Op::Query { k } => {
                let Some(k) = nth(s, *k) else { continue };
                if v.try_with_labels(s.group(&k)).is_none() {
                    return Err(at(format!("label group {:?} of the set was not found", s.labels(&k))));
                }
            }
            Op::Outside { k, o } => {
                let Some(k) = s.key(&[*k, k / 3, k / 7], Some(*o)) else { continue };
                if v.try_with_labels(s.group(&k)).is_some() {
                    return Err(at(format!("label group {:?} outside of the set was found", s.labels(&k))));
                }
                ctx.label("outsider looked up");
            }
            Op::Save { k, slot } => {
                let Some(k) = nth(s, *k) else { continue };
                let id = v.with_labels(s.group(&k));
                if let Some((o, _)) = saved.values().find(|(o, i)| (*o == k) != (*i == id)) {
                    return Err(at(format!("identifiers of {:?} and {:?} compare wrongly", s.labels(o), s.labels(&k))));
                }
                saved.insert(*slot, (k, id));
            }
            Op::UpdSaved { slot, ex, u } => {
                let Some((k, id)) = saved.get(slot) else { continue };
                if *ex { K::ex(v.get_metric_mut(*id), *u) } else { K::guard(v.get_metric(*id), *u) }
                K::model(model.entry(k.clone()).or_insert_with(K::zero), *u);
                recreated += gone.remove(k) as u64;
                updates += 1;
                ctx.label("update through a saved id");
            }
            Op::Remove { .. } | Op::RemoveSaved { .. } => {
                let (k, id) = match op {
                    Op::Remove { k } => {
                        let Some(k) = nth(s, *k) else { continue };
                        let id = v.with_labels(s.group(&k));
                        (k, id)
                    }
                    Op::RemoveSaved { slot } => match saved.get(slot) {
                        Some(x) => x.clone(),
                        None => continue,
                    },
                    _ => unreachable!(),
                };
                removed_live += remove::<K, S>(&v, &mut model, dense, &k, id).map_err(at)? as u64;
                gone.insert(k);
            }
            Op::BulkRemove { from, n, step } => {
                for j in 0..*n {
                    let Some(k) = nth(s, from.wrapping_add(j.wrapping_mul(*step)) % key_count(s).max(1) as u32) else { continue };
                    let id = v.with_labels(s.group(&k));
                    removed_live += remove::<K, S>(&v, &mut model, dense, &k, id).map_err(at)? as u64;
                    gone.insert(k);
                }
            }
            Op::InitAll => {
                v.init_all_dense();
                if dense {
                    for j in 0..key_count(s) as u32 {
                        model.entry(nth(s, j).unwrap()).or_insert_with(K::zero);
                    }
                }
                ctx.label("init_all_dense");
            }
            Op::Card => {
                let want = (model.len(), s.cardinality());
                let got = v.get_cardinality();
                if got != want {
                    return Err(at(format!("cardinality {got:?}, expected {want:?}")));
                }
            }
            Op::Scrape => compare::<K, S>(s, &v, &model).map_err(at)?,
            Op::Bulk { from, n, how, u } => {
                for j in 0..*n {
                    let Some(k) = nth(s, (*from as u64 + j as u64).checked_rem(key_count(s)).unwrap_or(0) as u32) else { continue };
                    update::<K, S>(s, &mut v, &k, *how, *u);
                    K::model(model.entry(k).or_insert_with(K::zero), *u);
                    updates += 1;
                }
            }
        }
    }
    compare::<K, S>(s, &v, &model).map_err(|m| format!("at the end: {m}"))?;
    let got = v.get_cardinality();
    if got != (model.len(), s.cardinality()) {
        return Err(format!("at the end: cardinality {got:?}, expected {:?}", (model.len(), s.cardinality())));
    }
    if v.get_label_set().cardinality() != s.cardinality() {
        return Err(format!("the label set has cardinality {:?}, expected {:?}", v.get_label_set().cardinality(), s.cardinality()));
    }
    // Every metric read back through the lookup path too.
    for (k, m) in &model {
        let id = v.with_labels(s.group(k));
        let got = K::read(&mut v.get_metric_mut(id));
        if got != *m {
            return Err(format!("{:?} holds {got:?}, expected {m:?}", s.labels(k)));
        }
    }
    ctx.label(if dense { "dense" } else { "sparse" });
    ctx.label_if(model.len() >= 2, "two or more groups");
    ctx.label_if(model.len() > 200, "over 200 groups");
    ctx.label_if(model.len() > 1024, "over 1024 groups");
    ctx.label_if(removed_live > 0, "removed a live group");
    ctx.label_if(recreated > 0, "re-created after removal");
    ctx.nontrivial_if(model.len() >= 2 && updates >= 3);
    Ok(())
}

fn remove<K: Kind, S: Subject>(v: &MetricVec<K::M, S::Set>, model: &mut BTreeMap<Key, Model>, dense: bool, k: &Key, id: LabelId<S::Set>) -> Result<bool, String> {
    let got = v.remove_metric(id).map(|mut m| K::read(&mut m));
    let want = if dense { None } else { model.remove(k) };
    if got != want {
        return Err(format!("removal of {k:?} returned {got:?}, expected {want:?}"));
    }
    Ok(want.is_some())
}

pub fn update<K: Kind, S: Subject>(s: &S, v: &mut MetricVec<K::M, S::Set>, k: &[u32], how: How, u: Upd) {
    match how {
        How::Vec => K::vec(v, s.group(k), u),
        How::Guard => K::guard(v.get_metric(v.with_labels(s.group(k))), u),
        How::VecMut => K::vec_mut(v, s.group(k), u),
        How::Mut => {
            let id = v.with_labels(s.group(k));
            K::ex(v.get_metric_mut(id), u)
        }
    }
}

pub fn compare<K: Kind, S: Subject>(s: &S, v: &MetricVec<K::M, S::Set>, model: &BTreeMap<Key, Model>) -> Check {
    let got = samples(&scrape::<K, _>(v))?;
    let want: Vec<Vec<Want>> = model.iter().map(|(k, m)| K::want(m, NAME, s.labels(k))).collect();
    text::match_groups(&want, &got)
}

/// What a user can see of a history; removal and pre-initialisation are left out of these.
#[derive(PartialEq, Debug)]
pub struct Transcript {
    pub events: Vec<String>,
    pub scrapes: Vec<Vec<String>>,
}
pub fn run_transcript<K: Kind, S: Subject>(s: &S, repr: Repr, ops: &[Op], force: Option<bool>) -> Result<Transcript, String> {
    let mut v = build::<K, S>(s, repr, force == Some(true));
    let mut t = Transcript { events: vec![], scrapes: vec![] };
    let mut saved: BTreeMap<u8, LabelId<S::Set>> = BTreeMap::new();
    let how = |h: How| match force {
        None => h,
        Some(true) => match h { How::Vec => How::VecMut, How::Guard => How::Mut, h => h },
        Some(false) => match h { How::VecMut => How::Vec, How::Mut => How::Guard, h => h },
    };
    let snap = |v: &MetricVec<K::M, S::Set>| -> Result<Vec<String>, String> {
        let mut x: Vec<String> = samples(&scrape::<K, _>(v))?.into_iter().map(|s| format!("{s:?}")).collect();
        x.sort();
        Ok(x)
    };
    for op in ops {
        match op {
            Op::Upd { k, how: h, u } => {
                let Some(k) = nth(s, *k) else { continue };
                update::<K, S>(s, &mut v, &k, how(*h), *u);
            }
            Op::Touch { k } => {
                let Some(k) = nth(s, *k) else { continue };
                drop(v.get_metric(v.with_labels(s.group(&k))));
            }
            Op::Query { k } => {
                let Some(k) = nth(s, *k) else { continue };
                t.events.push(format!("lookup {:?}", v.try_with_labels(s.group(&k)).is_some()));
            }
            Op::Outside { k, o } => {
                let Some(k) = s.key(&[*k, k / 3, k / 7], Some(*o)) else { continue };
                t.events.push(format!("outside {:?}", v.try_with_labels(s.group(&k)).is_some()));
            }
            Op::Save { k, slot } => {
                let Some(k) = nth(s, *k) else { continue };
                saved.insert(*slot, v.with_labels(s.group(&k)));
            }
            Op::UpdSaved { slot, ex, u } => {
                let Some(id) = saved.get(slot) else { continue };
                if force.unwrap_or(*ex) { K::ex(v.get_metric_mut(*id), *u) } else { K::guard(v.get_metric(*id), *u) }
            }
            Op::Card => t.events.push(format!("cardinality {:?}", v.get_cardinality())),
            Op::Scrape => t.scrapes.push(snap(&v)?),
            Op::Bulk { from, n, how: h, u } => {
                for j in 0..*n {
                    let Some(k) = nth(s, (*from as u64 + j as u64).checked_rem(key_count(s)).unwrap_or(0) as u32) else { continue };
                    update::<K, S>(s, &mut v, &k, how(*h), *u);
                }
            }
            Op::Remove { .. } | Op::RemoveSaved { .. } | Op::BulkRemove { .. } | Op::InitAll => {}
        }
    }
    t.scrapes.push(snap(&v)?);
    t.events.push(format!("cardinality {:?}", v.get_cardinality()));
    Ok(t)
}

// ---- generators
pub fn upd() -> BoxedStrategy<Upd> {
    (0u8..30, prop_oneof![3 => -50i32..50, 1 => any::<i16>().prop_map(|x| x as i32)]).prop_map(|(op, v)| Upd { op, v }).boxed()
}
pub fn how() -> BoxedStrategy<How> {
    prop::sample::select(&[How::Vec, How::Guard, How::VecMut, How::Mut][..]).boxed()
}
fn k() -> BoxedStrategy<u32> {
    prop_oneof![4 => 0u32..4, 3 => 0u32..40, 2 => any::<u32>()].boxed()
}
/// `churn`: the share of removal and initialisation.
pub fn op(churn: u32) -> BoxedStrategy<Op> {
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (14, (k(), how(), upd()).prop_map(|(k, how, u)| Op::Upd { k, how, u }).boxed()),
        (2, k().prop_map(|k| Op::Touch { k }).boxed()),
        (2, k().prop_map(|k| Op::Query { k }).boxed()),
        (1, (k(), any::<u32>()).prop_map(|(k, o)| Op::Outside { k, o }).boxed()),
        (3, (k(), 0u8..4).prop_map(|(k, slot)| Op::Save { k, slot }).boxed()),
        (5, (0u8..4, any::<bool>(), upd()).prop_map(|(slot, ex, u)| Op::UpdSaved { slot, ex, u }).boxed()),
        (1, Just(Op::Card).boxed()),
        (2, Just(Op::Scrape).boxed()),
        (1, (k(), 1u32..40, how(), upd()).prop_map(|(from, n, how, u)| Op::Bulk { from, n, how, u }).boxed()),
    ];
    if churn > 0 {
        v.push((churn, k().prop_map(|k| Op::Remove { k }).boxed()));
        v.push((churn / 2 + 1, (0u8..4).prop_map(|slot| Op::RemoveSaved { slot }).boxed()));
        v.push((churn / 4 + 1, Just(Op::InitAll).boxed()));
        v.push((churn / 4 + 1, Just(Op::Card).boxed()));
        v.push((churn / 4 + 1, (k(), 1u32..30, 1u32..5).prop_map(|(from, n, step)| Op::BulkRemove { from, n, step }).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
pub fn bulk_op(churn: bool) -> BoxedStrategy<Op> {
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (6, (any::<u16>(), 1u32..4000, how(), upd()).prop_map(|(from, n, how, u)| Op::Bulk { from: from as u32, n, how, u }).boxed()),
        (2, (any::<u16>(), how(), upd()).prop_map(|(k, how, u)| Op::Upd { k: k as u32, how, u }).boxed()),
        (1, (any::<u16>(), 0u8..2).prop_map(|(k, slot)| Op::Save { k: k as u32, slot }).boxed()),
        (2, (0u8..2, any::<bool>(), upd()).prop_map(|(slot, ex, u)| Op::UpdSaved { slot, ex, u }).boxed()),
        (1, Just(Op::Scrape).boxed()),
        (1, Just(Op::Card).boxed()),
    ];
    if churn {
        v.push((3, (any::<u16>(), 1u32..2500, 1u32..7).prop_map(|(from, n, step)| Op::BulkRemove { from: from as u32, n, step }).boxed()));
        v.push((1, Just(Op::InitAll).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
/// Few label groups, anywhere in a huge set.
pub fn far_op(churn: bool) -> BoxedStrategy<Op> {
    let k = || prop_oneof![2 => any::<u32>(), 1 => 0u32..4, 1 => 65_530u32..65_545, 1 => (0u32..4).prop_map(|k| k + (1 << 16)), 1 => (0u32..300).prop_map(|k| k << 8)];
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (8, (k(), how(), upd()).prop_map(|(k, how, u)| Op::Upd { k, how, u }).boxed()),
        (2, k().prop_map(|k| Op::Query { k }).boxed()),
        (1, (k(), any::<u32>()).prop_map(|(k, o)| Op::Outside { k, o }).boxed()),
        (2, (k(), 0u8..2).prop_map(|(k, slot)| Op::Save { k, slot }).boxed()),
        (2, (0u8..2, any::<bool>(), upd()).prop_map(|(slot, ex, u)| Op::UpdSaved { slot, ex, u }).boxed()),
        (2, (k(), 1u32..600, how(), upd()).prop_map(|(from, n, how, u)| Op::Bulk { from, n, how, u }).boxed()),
        (1, Just(Op::Card).boxed()),
    ];
    if churn {
        v.push((4, k().prop_map(|k| Op::Remove { k }).boxed()));
        v.push((2, (0u8..2).prop_map(|slot| Op::RemoveSaved { slot }).boxed()));
        v.push((1, (k(), 1u32..600, 1u32..5).prop_map(|(from, n, step)| Op::BulkRemove { from, n, step }).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
pub fn kind() -> BoxedStrategy<KindTag> {
    prop::sample::select(&[KindTag::Counter, KindTag::Gauge, KindTag::Float, KindTag::Histogram, KindTag::Own][..]).boxed()
}
pub fn repr() -> BoxedStrategy<Repr> {
    prop::sample::select(&[Repr::Default, Repr::Dense, Repr::Sparse][..]).boxed()
}
