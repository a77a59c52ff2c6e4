//! Generated exposition documents: metric families with hostile names, help texts, label values and
//! numbers, built through measured's own types, next to what an export has to say about them.
use crate::driver::Check;
use crate::proto::PFamily;
use crate::sets::Three;
use crate::text::{self, same, Num, Sample};
use crate::util::*;
use lasso::ThreadedRodeo;
use measured::label::{LabelGroupVisitor, LabelName, LabelValue, LabelVisitor, StaticLabelSet};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{AtomicF64, FloatGaugeState, GaugeState};
use measured::metric::group::{ComposedGroup, Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, MetricNameEncoder, Total, WithNamespace};
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::{Counter, CounterVec, FloatGauge, FloatGaugeVec, Gauge, GaugeVec, Histogram, HistogramVec, LabelGroup};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::Arc;

pub const BOUNDS: [f64; 3] = [-1.5, 0.1, 1e6];
pub const NAMESPACES: [&str; 4] = ["ns", "http", "a:b", "_x9"];

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = TextSet)]
pub struct TextGroup<'a> {
    #[label(dynamic_with = ThreadedRodeo)]
    pub first: &'a str,
    pub kind: Three,
    #[label(dynamic_with = ThreadedRodeo, rename = "_Second2")]
    pub second: &'a str,
}
/// A collection of which is dense.
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = DenseSet)]
pub struct DenseGroup {
    pub one: Three,
    #[label(rename = "Two")]
    pub two: Three,
}
pub fn dense_group(i: u8) -> DenseGroup {
    DenseGroup { one: three(i % 3), two: three(i / 3) }
}
fn kind_name(k: u8) -> String {
    ["user", "internal", "network"][k as usize % 3].to_owned()
}
pub fn three(k: u8) -> Three {
    Three::ALL[k as usize % 3]
}
pub fn text_set() -> TextSet {
    TextSet { first: ThreadedRodeo::new(), kind: StaticLabelSet::new(), second: ThreadedRodeo::new() }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LV {
    Str(String),
    Int(i64),
    Float(Fl),
}
impl LabelValue for LV {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        match self {
            LV::Str(s) => v.write_str(s),
            LV::Int(i) => v.write_int(*i),
            LV::Float(f) => v.write_float(f.0),
        }
    }
}
impl LV {
    fn matches(&self, s: &str) -> bool {
        match self {
            LV::Str(x) => x == s,
            LV::Int(x) => x.to_string() == s,
            LV::Float(Fl(x)) if x.is_nan() => s == "NaN",
            LV::Float(Fl(x)) if x.is_infinite() => s == if *x > 0.0 { "+Inf" } else { "-Inf" },
            LV::Float(Fl(x)) => s.parse::<f64>().is_ok_and(|y| same(*x, y)),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CustomGroup(pub Vec<(String, LV)>);
impl LabelGroup for CustomGroup {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        for (n, x) in &self.0 {
            v.write_value(LabelName::from_str(n), x);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Val {
    pub u: u64,
    pub f: Fl,
    pub obs: Vec<Fl>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub first: String,
    pub kind: u8,
    pub second: String,
    pub val: Val,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Counter,
    Gauge,
    Float,
    Histogram,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Plain(Kind, Val),
    Vec(Kind, Vec<Entry>),
    /// Label groups 0..9 of a dense collection, possibly all pre-initialised.
    Dense(Kind, bool, Vec<(u8, Val)>),
    /// One-off writes of single values under hand-made label groups; with or without a type.
    Custom(Kind, bool, Vec<(CustomGroup, Val)>),
    /// An optional family that is absent.
    Absent,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fam {
    pub name: String,
    /// end the name in the `_total` suffix
    pub total: bool,
    /// the namespaces around it, outermost first
    pub ns: Vec<u8>,
    pub help: Option<String>,
    pub body: Body,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub fams: Vec<Fam>,
}

// ---- generators

/// Fewer than `few`, and now and then up to `much`.
fn many<S: Strategy + 'static>(s: S, few: usize, much: usize) -> impl Strategy<Value = Vec<S::Value>>
where
    S::Value: Clone,
{
    let s = s.boxed();
    prop_oneof![29 => prop::collection::vec(s.clone(), 0..few), 1 => prop::collection::vec(s, 0..much)]
}
fn val() -> BoxedStrategy<Val> {
    (any_u64(), any_f64(), prop::collection::vec(any_f64(), 0..5)).prop_map(|(u, f, obs)| Val { u, f, obs }).boxed()
}
pub fn lv() -> BoxedStrategy<LV> {
    prop_oneof![5 => any_text().prop_map(LV::Str), 2 => any_i64().prop_map(LV::Int), 2 => any_f64().prop_map(LV::Float)].boxed()
}
fn fam(histograms: bool, helped: bool) -> BoxedStrategy<Fam> {
    let kinds: &[Kind] = if histograms { &[Kind::Counter, Kind::Gauge, Kind::Float, Kind::Histogram] } else { &[Kind::Counter, Kind::Gauge, Kind::Float] };
    let kind = move || prop::sample::select(kinds);
    let entry = || (any_text(), 0u8..3, any_text(), val()).prop_map(|(first, kind, second, val)| Entry { first, kind, second, val });
    let label = || ("[a-zA-Z_][a-zA-Z0-9_]{0,8}", lv());
    let body = prop_oneof![
        3 => (kind(), val()).prop_map(|(k, v)| Body::Plain(k, v)),
        4 => (kind(), many(entry(), 5, 60)).prop_map(|(k, v)| Body::Vec(k, v)),
        2 => (kind(), any::<bool>(), prop::collection::vec((0u8..9, val()), 0..6)).prop_map(|(k, i, v)| Body::Dense(k, i, v)),
        3 => (kind(), any::<bool>(), many((many(label(), 5, 30).prop_map(CustomGroup), val()), 4, 25))
            .prop_map(|(k, t, v)| Body::Custom(k, t, v)),
        1 => Just(Body::Absent),
    ];
    let help = prop_oneof![1 => Just(None), 4 => any_text().prop_map(Some)];
    let name = prop_oneof![30 => metric_name(), 1 => "[a-zA-Z_:][a-zA-Z0-9_:]{13,300}"];
    (name, any::<bool>(), prop::collection::vec(0u8..4, 0..3), help, body)
        .prop_map(move |(name, total, ns, mut help, mut body)| {
            if let Body::Custom(Kind::Histogram, t, _) = &mut body {
                // without a type its parts would be families of their own
                *t = true;
            }
            if helped {
                // A one-off protobuf write has to be preceded by a help or type.
                if let Body::Custom(_, t, _) = &mut body {
                    *t |= help.is_none();
                }
            }
            if matches!(body, Body::Absent) {
                help.get_or_insert_with(String::new);
            }
            Fam { name, total, ns, help, body }
        })
        .boxed()
}
/// `histograms`: allow them (the protobuf encoder has none).
pub fn doc(histograms: bool, max: usize) -> BoxedStrategy<Doc> {
    many(fam(histograms, !histograms), max + 1, 4 * max)
        .prop_map(|mut fams| {
            // Distinct families, also with the suffixes of histograms, and distinct labels in a group.
            let mut used = HashSet::new();
            for f in &mut fams {
                loop {
                    let full = f.full_name();
                    let family = ["", "_bucket", "_sum", "_count"].map(|s| format!("{full}{s}"));
                    let stem = ["_bucket", "_sum", "_count"].iter().filter_map(|s| full.strip_suffix(s)).map(str::to_owned).collect::<Vec<_>>();
                    if family.iter().chain(&stem).any(|n| used.contains(n)) {
                        f.name.push('x');
                        continue;
                    }
                    used.extend(family);
                    break;
                }
                if let Body::Custom(_, _, samples) = &mut f.body {
                    for (g, _) in samples {
                        let mut names = HashSet::from(["le".to_owned(), "quantile".to_owned()]);
                        for (n, _) in &mut g.0 {
                            while !names.insert(n.clone()) {
                                n.push('_')
                            }
                        }
                    }
                }
            }
            Doc { fams }
        })
        .boxed()
}

impl Fam {
    pub fn full_name(&self) -> String {
        let mut s = String::new();
        for n in &self.ns {
            s += NAMESPACES[*n as usize];
            s += "_";
        }
        s + &self.name + if self.total { "_total" } else { "" }
    }
}

// ---- building

pub enum Metric {
    Counter(Counter),
    Gauge(Gauge),
    Float(FloatGauge),
    Histogram(Histogram<3>),
    CounterVec(CounterVec<TextSet>),
    GaugeVec(GaugeVec<TextSet>),
    FloatVec(FloatGaugeVec<TextSet>),
    HistogramVec(HistogramVec<TextSet, 3>),
    CounterDense(CounterVec<DenseSet>),
    GaugeDense(GaugeVec<DenseSet>),
    FloatDense(FloatGaugeVec<DenseSet>),
    HistogramDense(HistogramVec<DenseSet, 3>),
    Counters(bool, Vec<(CustomGroup, CounterState)>),
    Gauges(bool, Vec<(CustomGroup, GaugeState)>),
    Floats(bool, Vec<(CustomGroup, FloatGaugeState)>),
    Histograms(bool, Thresholds<3>, Vec<(CustomGroup, HistogramState<3>)>),
    Absent,
}
pub struct Built {
    pub fam: Fam,
    pub metric: Metric,
}
impl Built {
    pub fn new(fam: &Fam) -> Built {
        let mut f = fam.clone();
        let metric = match &mut f.body {
            Body::Absent => Metric::Absent,
            Body::Plain(k, _) => match k {
                Kind::Counter => Metric::Counter(Counter::new()),
                Kind::Gauge => Metric::Gauge(Gauge::new()),
                Kind::Float => Metric::Float(FloatGauge::new()),
                Kind::Histogram => Metric::Histogram(Histogram::with_metadata(Thresholds::with_buckets(BOUNDS))),
            },
            Body::Vec(k, e) => {
                // what the same label group gets later is applied on top by `set`
                let mut seen = HashSet::new();
                e.retain(|e| seen.insert((e.first.clone(), e.kind, e.second.clone())));
                match k {
                    Kind::Counter => Metric::CounterVec(CounterVec::with_label_set(text_set())),
                    Kind::Gauge => Metric::GaugeVec(GaugeVec::with_label_set(text_set())),
                    Kind::Float => Metric::FloatVec(FloatGaugeVec::with_label_set(text_set())),
                    Kind::Histogram => Metric::HistogramVec(HistogramVec::with_label_set_and_metadata(text_set(), Thresholds::with_buckets(BOUNDS))),
                }
            }
            Body::Dense(k, init, e) => {
                let mut seen = HashSet::new();
                e.retain(|e| seen.insert(e.0));
                if *init {
                    let zero = Val { u: 0, f: Fl(0.0), obs: vec![] };
                    e.extend((0..9).filter(|i| !seen.contains(i)).map(|i| (i, zero.clone())));
                }
                macro_rules! made {
                    ($v:expr) => {{
                        #[allow(unused_mut)]
                        let mut v = $v;
                        if *init {
                            v.init_all_dense();
                        }
                        v
                    }};
                }
                match k {
                    Kind::Counter => Metric::CounterDense(made!(CounterVec::new())),
                    Kind::Gauge => Metric::GaugeDense(made!(GaugeVec::new())),
                    Kind::Float => Metric::FloatDense(made!(FloatGaugeVec::new())),
                    Kind::Histogram => Metric::HistogramDense(made!(HistogramVec::with_metadata(Thresholds::with_buckets(BOUNDS)))),
                }
            }
            Body::Custom(k, t, e) => match k {
                Kind::Counter => Metric::Counters(*t, e.iter().map(|(g, _)| (g.clone(), CounterState::new(0))).collect()),
                Kind::Gauge => Metric::Gauges(*t, e.iter().map(|(g, _)| (g.clone(), GaugeState::new(0))).collect()),
                Kind::Float => Metric::Floats(*t, e.iter().map(|(g, _)| (g.clone(), FloatGaugeState::new(0.0))).collect()),
                Kind::Histogram => Metric::Histograms(*t, Thresholds::with_buckets(BOUNDS), e.iter().map(|(g, _)| (g.clone(), Default::default())).collect()),
            },
        };
        let mut b = Built { fam: f, metric };
        for i in 0..b.len() {
            b.apply(i);
        }
        b
    }
    /// The number of samples (label groups) of the family.
    pub fn len(&self) -> usize {
        match &self.fam.body {
            Body::Plain(..) => 1,
            Body::Vec(_, e) => e.len(),
            Body::Dense(_, _, e) => e.len(),
            Body::Custom(_, _, e) => e.len(),
            Body::Absent => 0,
        }
    }
    fn val(&self, i: usize) -> Val {
        match &self.fam.body {
            Body::Plain(_, v) => v.clone(),
            Body::Vec(_, e) => e[i].val.clone(),
            Body::Dense(_, _, e) => e[i].1.clone(),
            Body::Custom(_, _, e) => e[i].1.clone(),
            Body::Absent => unreachable!(),
        }
    }
    /// Give sample `i` the value its description says.
    fn apply(&mut self, i: usize) {
        let v = self.val(i);
        let fam = &self.fam;
        let group = |i: usize| match &fam.body {
            Body::Vec(_, e) => TextGroup { first: &e[i].first, kind: three(e[i].kind), second: &e[i].second },
            _ => unreachable!(),
        };
        let dense = |i: usize| match &fam.body {
            Body::Dense(_, _, e) => dense_group(e[i].0),
            _ => unreachable!(),
        };
        match &mut self.metric {
            Metric::Counter(c) => c.get_metric_mut().count = v.u.into(),
            Metric::Gauge(c) => c.set(v.u as i64),
            Metric::Float(c) => c.set(v.f.0),
            Metric::Histogram(c) => v.obs.iter().for_each(|x| c.observe(x.0)),
            Metric::CounterVec(c) => {
                let id = c.with_labels(group(i));
                c.get_metric_mut(id).count = v.u.into()
            }
            Metric::GaugeVec(c) => c.set(group(i), v.u as i64),
            Metric::FloatVec(c) => c.set(group(i), v.f.0),
            Metric::HistogramVec(c) => {
                let id = c.with_labels(group(i));
                drop(c.get_metric(id));
                v.obs.iter().for_each(|x| c.observe(group(i), x.0))
            }
            Metric::CounterDense(c) => {
                let id = c.with_labels(dense(i));
                c.get_metric_mut(id).count = v.u.into()
            }
            Metric::GaugeDense(c) => c.set(dense(i), v.u as i64),
            Metric::FloatDense(c) => c.set(dense(i), v.f.0),
            Metric::HistogramDense(c) => {
                let id = c.with_labels(dense(i));
                drop(c.get_metric(id));
                v.obs.iter().for_each(|x| c.observe(dense(i), x.0))
            }
            Metric::Counters(_, c) => c[i].1.count = v.u.into(),
            Metric::Gauges(_, c) => c[i].1.count = (v.u as i64).into(),
            Metric::Floats(_, c) => c[i].1.count = AtomicF64::new(v.f.0),
            Metric::Histograms(_, _, c) => {
                let st = c[i].1.inner.get_mut();
                for x in &v.obs {
                    st.observe(BOUNDS.iter().position(|b| x.0 <= *b).unwrap_or(3), x.0);
                }
            }
            Metric::Absent => {}
        }
    }
    /// Change sample `i`: counters and gauges take the new value, histograms its observations on top.
    pub fn update(&mut self, i: usize, v: &Val) {
        let hist = matches!(self.fam.body, Body::Plain(Kind::Histogram, _) | Body::Vec(Kind::Histogram, _) | Body::Dense(Kind::Histogram, ..) | Body::Custom(Kind::Histogram, ..));
        let slot = match &mut self.fam.body {
            Body::Plain(_, x) => x,
            Body::Vec(_, e) => &mut e[i].val,
            Body::Dense(_, _, e) => &mut e[i].1,
            Body::Custom(_, _, e) => &mut e[i].1,
            Body::Absent => return,
        };
        let old = slot.obs.clone();
        *slot = v.clone();
        self.apply(i);
        if hist {
            let slot = match &mut self.fam.body {
                Body::Plain(_, x) => x,
                Body::Vec(_, e) => &mut e[i].val,
                Body::Dense(_, _, e) => &mut e[i].1,
                Body::Custom(_, _, e) => &mut e[i].1,
                Body::Absent => unreachable!(),
            };
            let new = std::mem::replace(&mut slot.obs, old);
            slot.obs.extend(new);
        }
    }
}
// ---- exporting

/// A family as a metric group; `H` says whether the encoder can do histograms.
pub struct WithHist<'a>(pub &'a Built);
pub struct NoHist<'a>(pub &'a Built);

macro_rules! group_impl {
    ($t:ident, [$($bound:ty),*], $hist:expr, $hists:expr, $hv:expr, $hd:expr) => {
        impl<E: Encoding> MetricGroup<E> for $t<'_>
        where
            CounterState: MetricEncoding<E, Metadata = ()>,
            GaugeState: MetricEncoding<E, Metadata = ()>,
            FloatGaugeState: MetricEncoding<E, Metadata = ()>,
            $($bound: MetricEncoding<E>,)*
        {
            fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
                let name = MetricName::try_from_str(&self.0.fam.name).map_err(|e| format!("{} was refused: {e:?}", self.0.fam.name)).unwrap();
                if self.0.fam.total {
                    self.go(name.with_suffix(Total), enc)
                } else {
                    self.go(name, enc)
                }
            }
        }
        impl $t<'_> {
            fn go<E: Encoding>(&self, name: impl MetricNameEncoder, enc: &mut E) -> Result<(), E::Err>
            where
                CounterState: MetricEncoding<E, Metadata = ()>,
                GaugeState: MetricEncoding<E, Metadata = ()>,
                FloatGaugeState: MetricEncoding<E, Metadata = ()>,
                $($bound: MetricEncoding<E>,)*
            {
                if let Some(h) = &self.0.fam.help {
                    enc.write_help(name.by_ref(), h)?;
                }
                match &self.0.metric {
                    Metric::Counter(c) => c.collect_family_into(name, enc),
                    Metric::Gauge(c) => c.collect_family_into(name, enc),
                    Metric::Float(c) => c.collect_family_into(name, enc),
                    Metric::Histogram(c) => $hist(c, name, enc),
                    Metric::CounterVec(c) => c.collect_family_into(name, enc),
                    Metric::GaugeVec(c) => c.collect_family_into(name, enc),
                    Metric::FloatVec(c) => c.collect_family_into(name, enc),
                    Metric::HistogramVec(c) => $hv(c, name, enc),
                    Metric::CounterDense(c) => c.collect_family_into(name, enc),
                    Metric::GaugeDense(c) => c.collect_family_into(name, enc),
                    Metric::FloatDense(c) => c.collect_family_into(name, enc),
                    Metric::HistogramDense(c) => $hd(c, name, enc),
                    Metric::Counters(t, c) => one_off(*t, &(), c, name, enc),
                    Metric::Gauges(t, c) => one_off(*t, &(), c, name, enc),
                    Metric::Floats(t, c) => one_off(*t, &(), c, name, enc),
                    Metric::Histograms(t, m, c) => $hists(*t, m, c, name, enc),
                    Metric::Absent => Ok(()),
                }
            }
        }
    };
}
/// One-off writes of single values: by value, by reference and with the labels in two halves.
fn one_off<E: Encoding, M: MetricEncoding<E>>(t: bool, m: &M::Metadata, c: &[(CustomGroup, M)], name: impl MetricNameEncoder, enc: &mut E) -> Result<(), E::Err> {
    if t {
        M::write_type(&name, enc)?
    }
    for (i, (g, s)) in c.iter().enumerate() {
        match i % 4 {
            0 => s.collect_into(m, g, &name, enc)?,
            1 => s.collect_into(m, g.clone(), name.by_ref(), enc)?,
            2 => {
                let (a, b) = g.0.split_at(g.0.len() / 2);
                s.collect_into(m, CustomGroup(a.to_vec()).compose_with(CustomGroup(b.to_vec())), &name, enc)?
            }
            _ => {
                let (a, b) = g.0.split_at(g.0.len() / 3);
                let (b, c) = b.split_at(b.len() / 2);
                let [a, b, c] = [a, b, c].map(|x| CustomGroup(x.to_vec()));
                s.collect_into(m, (&a).compose_with(b.by_ref().compose_with(&&c)).by_ref(), &&name, enc)?
            }
        }
    }
    Ok(())
}
group_impl!(WithHist, [HistogramState<3>], |c: &Histogram<3>, n, e| c.collect_family_into(n, e), one_off, |c: &HistogramVec<TextSet, 3>, n, e| c.collect_family_into(n, e), |c: &HistogramVec<DenseSet, 3>, n, e| c.collect_family_into(n, e));
group_impl!(NoHist, [], |_, _, _| unreachable!(), |_, _, _, _, _| unreachable!(), |_, _, _| unreachable!(), |_, _, _| unreachable!());

/// The number of ways to export the same families (`via`).
pub const VIAS: u8 = 7;
/// Export the families, each inside its namespaces.
macro_rules! collect_fn {
    ($f:ident, $t:ident, [$($bound:ty),*]) => {
        pub fn $f<E: Encoding>(fams: &[Built], enc: &mut E, via: u8) -> Result<(), E::Err>
        where
            CounterState: MetricEncoding<E, Metadata = ()>,
            GaugeState: MetricEncoding<E, Metadata = ()>,
            FloatGaugeState: MetricEncoding<E, Metadata = ()>,
            $($bound: MetricEncoding<E>,)*
        {
            /// all of them as one group
            struct All<'a>(&'a [Built]);
            impl<E: Encoding> MetricGroup<E> for All<'_>
            where
                CounterState: MetricEncoding<E, Metadata = ()>,
                GaugeState: MetricEncoding<E, Metadata = ()>,
                FloatGaugeState: MetricEncoding<E, Metadata = ()>,
                $($bound: MetricEncoding<E>,)*
            {
                fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
                    match self.0 {
                        [] | [_] => $f(self.0, enc, 0),
                        x => {
                            let (a, b) = x.split_at((x.len() + 1) / 2);
                            ComposedGroup(All(a), All(b)).collect_group_into(enc)
                        }
                    }
                }
            }
            match via % VIAS {
                5 => return All(fams).collect_group_into(enc),
                6 => return All(fams).collect_group_into(&mut &mut *enc),
                _ => {}
            }
            let ns = |n: u8| NAMESPACES[n as usize];
            for b in fams {
                let g = $t(b);
                match b.fam.ns[..] {
                    [] => match via % 5 {
                        0 => g.collect_group_into(enc)?,
                        1 => (&&g).collect_group_into(enc)?,
                        2 => Arc::new(g).collect_group_into(enc)?,
                        3 => Some(g).collect_group_into(enc)?,
                        _ => ComposedGroup(None::<$t<'_>>, ComposedGroup(g, None::<Arc<$t<'_>>>)).collect_group_into(enc)?,
                    },
                    [x] => match via % 5 {
                        0 => WithNamespace::new(ns(x), g).collect_group_into(enc)?,
                        1 => (&WithNamespace::new(ns(x), &g)).collect_group_into(enc)?,
                        2 => Arc::new(WithNamespace::new(ns(x), Arc::new(g))).collect_group_into(enc)?,
                        3 => Some(WithNamespace::new(ns(x), Some(g))).collect_group_into(enc)?,
                        _ => WithNamespace::new(ns(x), ComposedGroup(g, None::<$t<'_>>)).collect_group_into(enc)?,
                    },
                    [x, y] => match via % 5 {
                        0 => WithNamespace::new(ns(x), WithNamespace::new(ns(y), g)).collect_group_into(enc)?,
                        1 => (&WithNamespace::new(ns(x), &WithNamespace::new(ns(y), &g))).collect_group_into(enc)?,
                        2 => Arc::new(WithNamespace::new(ns(x), Arc::new(WithNamespace::new(ns(y), g)))).collect_group_into(enc)?,
                        3 => WithNamespace::new(ns(x), Some(WithNamespace::new(ns(y), Some(g)))).collect_group_into(enc)?,
                        _ => ComposedGroup(WithNamespace::new(ns(x), ComposedGroup(None::<$t<'_>>, WithNamespace::new(ns(y), g))), None::<$t<'_>>).collect_group_into(enc)?,
                    },
                    _ => unreachable!(),
                }
            }
            Ok(())
        }
    };
}
collect_fn!(collect_text, WithHist, [HistogramState<3>]);
collect_fn!(collect_proto, NoHist, []);

// ---- what an export has to say

type Labs = Vec<(String, LV)>;
fn custom_labels(f: &Fam, i: usize) -> Labs {
    match &f.body {
        Body::Plain(..) => vec![],
        Body::Vec(_, e) => vec![("first".into(), LV::Str(e[i].first.clone())), ("kind".into(), LV::Str(kind_name(e[i].kind))), ("_Second2".into(), LV::Str(e[i].second.clone()))],
        Body::Dense(_, _, e) => vec![("one".into(), LV::Str(kind_name(e[i].0))), ("Two".into(), LV::Str(kind_name(e[i].0 / 3)))],
        Body::Custom(_, _, e) => e[i].0 .0.clone(),
        Body::Absent => unreachable!(),
    }
}
pub fn labels_match(w: &Labs, g: &[(String, String)]) -> bool {
    w.len() == g.len() && w.iter().zip(g).all(|((n, v), (m, s))| n == m && v.matches(s))
}
/// (name suffix, labels, value)
fn want_samples(kind: Kind, labels: &Labs, v: &Val) -> Vec<(&'static str, Labs, Num)> {
    match kind {
        Kind::Counter => vec![("", labels.clone(), Num::Int(v.u as i128))],
        Kind::Gauge => vec![("", labels.clone(), Num::Int(v.u as i64 as i128))],
        Kind::Float => vec![("", labels.clone(), Num::F(v.f.0))],
        Kind::Histogram => {
            let mut out = vec![];
            for b in BOUNDS.iter().map(|b| Some(*b)).chain([None]) {
                let n = v.obs.iter().filter(|x| b.is_none_or(|b| x.0 <= b)).count();
                let mut l = labels.clone();
                l.push(("le".into(), LV::Float(Fl(b.unwrap_or(f64::INFINITY)))));
                out.push(("_bucket", l, Num::Int(n as i128)));
            }
            out.push(("_sum", labels.clone(), Num::F(v.obs.iter().fold(0.0, |a, x| a + x.0))));
            out.push(("_count", labels.clone(), Num::Int(v.obs.len() as i128)));
            out
        }
    }
}
fn kind_typ(f: &Fam) -> (Option<Kind>, Option<&'static str>) {
    let name = |k: Kind| match k {
        Kind::Counter => "counter",
        Kind::Gauge | Kind::Float => "gauge",
        Kind::Histogram => "histogram",
    };
    match f.body {
        Body::Plain(k, _) | Body::Vec(k, _) | Body::Dense(k, ..) => (Some(k), Some(name(k))),
        Body::Custom(k, t, _) => (Some(k), t.then(|| name(k))),
        Body::Absent => (None, None),
    }
}

fn sample_matches(full: &str, w: &(&'static str, Labs, Num), s: &Sample) -> bool {
    s.name.strip_prefix(full) == Some(w.0) && labels_match(&w.1, &s.labels) && w.2.matches(&s.value)
}

/// The text export says exactly what these families hold.
pub fn check_text(fams: &[Built], bytes: &[u8]) -> Check {
    let got = text::parse(bytes, true)?;
    let mut expected: Vec<(&Built, String)> = vec![];
    for b in fams {
        if b.fam.help.is_some() || kind_typ(&b.fam).1.is_some() || b.len() > 0 {
            expected.push((b, b.fam.full_name()));
        }
    }
    for (i, (b, full)) in expected.iter().enumerate() {
        let (kind, typ) = kind_typ(&b.fam);
        let f = got.get(i).ok_or_else(|| format!("family {full} is missing"))?;
        if f.name != *full {
            return Err(format!("family {i} is {:?}, expected {full:?}", f.name));
        }
        // Blanks between the name and the help text are not part of it.
        let help = b.fam.help.as_ref().map(|h| h.trim_start_matches([' ', '\t']));
        if f.help.as_deref() != help {
            return Err(format!("help of {full} is {:?}, expected {help:?}", f.help));
        }
        if f.typ.as_deref() != typ {
            return Err(format!("type of {full} is {:?}, expected {typ:?}", f.typ));
        }
        let want: Vec<Vec<_>> = (0..b.len()).map(|i| want_samples(kind.unwrap(), &custom_labels(&b.fam, i), &b.val(i))).collect();
        match_samples(full, &want, &f.samples, matches!(b.fam.body, Body::Vec(..) | Body::Dense(..)))?;
    }
    if got.len() > expected.len() {
        return Err(format!("unexpected family {:?}", got[expected.len()].name));
    }
    Ok(())
}

fn match_samples(full: &str, want: &[Vec<(&'static str, Labs, Num)>], got: &[Sample], any_order: bool) -> Check {
    let mut left: Vec<usize> = (0..want.len()).collect();
    let mut i = 0;
    while i < got.len() {
        let p = if any_order { left.iter().position(|w| labels_match(&want[*w][0].1, &got[i].labels)) } else { (!left.is_empty()).then_some(0) };
        let p = p.ok_or_else(|| format!("unexpected sample {:?} in {full}", got[i]))?;
        for w in &want[left.remove(p)] {
            match got.get(i) {
                Some(s) if sample_matches(full, w, s) => i += 1,
                s => return Err(format!("in {full}: expected {w:?}, got {s:?}")),
            }
        }
    }
    match left.first() {
        Some(w) => Err(format!("sample missing from {full}: {:?}", want[*w][0])),
        None => Ok(()),
    }
}

/// The protobuf export says exactly what these families hold.
pub fn check_proto(fams: &[Built], got: &[PFamily]) -> Check {
    let expected: Vec<&Built> = fams.iter().filter(|b| b.len() > 0).collect();
    for (i, b) in expected.iter().enumerate() {
        let full = b.fam.full_name();
        let (kind, typ) = kind_typ(&b.fam);
        let f = got.get(i).ok_or_else(|| format!("family {full} is missing"))?;
        if f.name.as_deref() != Some(&full) {
            return Err(format!("family {i} is {:?}, expected {full:?}", f.name));
        }
        if f.help.as_deref().unwrap_or("") != b.fam.help.as_deref().unwrap_or("") {
            return Err(format!("help of {full} is {:?}, expected {:?}", f.help, b.fam.help));
        }
        let want_typ = typ.map(|t| if t == "counter" { 0 } else { 1 });
        // an absent type means the default, counter
        if f.typ != want_typ {
            return Err(format!("type of {full} is {:?}, expected {want_typ:?}", f.typ));
        }
        let mut left: Vec<usize> = (0..b.len()).collect();
        for m in &f.metrics {
            let p = if matches!(b.fam.body, Body::Vec(..) | Body::Dense(..)) { left.iter().position(|i| labels_match(&custom_labels(&b.fam, *i), &m.labels)) } else { (!left.is_empty()).then_some(0) };
            let j = left.remove(p.ok_or_else(|| format!("unexpected sample {m:?} in {full}"))?);
            let v = b.val(j);
            let (k, x) = match kind.unwrap() {
                Kind::Counter => (3, v.u as f64),
                Kind::Gauge => (2, v.u as i64 as f64),
                Kind::Float => (2, v.f.0),
                Kind::Histogram => unreachable!(),
            };
            if !labels_match(&custom_labels(&b.fam, j), &m.labels) || m.kind != k || !same(m.value, x) {
                return Err(format!("in {full}: expected {:?} field {k} value {x:?}, got {m:?}", custom_labels(&b.fam, j)));
            }
        }
        if let Some(j) = left.first() {
            return Err(format!("sample missing from {full}: {:?}", custom_labels(&b.fam, *j)));
        }
    }
    if got.len() > expected.len() {
        return Err(format!("unexpected family {:?}", got[expected.len()]));
    }
    Ok(())
}

pub fn build(d: &Doc) -> Vec<Built> {
    d.fams.iter().map(Built::new).collect()
}
