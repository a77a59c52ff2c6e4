//! C25: code the library calls back may panic, and its writers may take their time.
use crate::driver::*;
use crate::hist::{build, compare, key_count, kind, nth, repr, samples, upd, Kind, KindTag, Model, Repr, Upd, KC, KF, KG, KH, KX, NAME};
use crate::sets::*;
use crate::text::{self, Num, Want};
use measured::label::{LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::write_counter;
use measured::metric::name::{MetricName, MetricNameEncoder};
use measured::metric::histogram::Thresholds;
use measured::metric::{MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::{CounterVec, HistogramVec, LabelGroup};
use measured_prometheus_protobuf::ProtoEncoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::rc::Rc;
use std::sync::mpsc;
use std::time::Duration;

// ---- panics

/// Where the user's code can be made to panic.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Point {
    Default,
    Encode,
    EncodeDense,
    Decode,
    DecodeDense,
    Eq,
    Group,
    Value,
    Type,
    /// before and after the metric has written itself
    Collect,
    Collected,
    Name,
    Write,
}
thread_local! {
    static FUSE: Cell<Option<(Point, u32)>> = const { Cell::new(None) };
    /// What happens in the user's code, if not a panic.
    static INSTEAD: RefCell<Option<Box<Other>>> = const { RefCell::new(None) };
}
fn pass(p: Point) {
    match FUSE.get() {
        Some((q, 0)) if q == p => {
            FUSE.set(None);
            match INSTEAD.take() {
                None => panic!("the user's code at {p:?}"),
                Some(mut o) => {
                    o.used();
                    INSTEAD.set(Some(o));
                }
            }
        }
        Some((q, n)) if q == p => FUSE.set(Some((q, n - 1))),
        _ => {}
    }
}
/// Other metrics of the same types, used by the user's code while it is called.
struct Other {
    col: Col,
    counts: CounterVec<Set>,
    histogram: HistogramVec<Set, 2>,
    used: u64,
    wrong: Check,
}
impl Other {
    fn new(known: bool, repr: Repr) -> Other {
        let set = || Set { n: 3, known };
        let t = || Thresholds::with_buckets([1.0, 5.0]);
        let (col, counts, histogram) = match repr {
            Repr::Sparse => (MetricVec::sparse_with_label_set(set()), CounterVec::sparse_with_label_set(set()), HistogramVec::sparse_with_label_set_and_metadata(set(), t())),
            _ => (MetricVec::with_label_set(set()), CounterVec::with_label_set(set()), HistogramVec::with_label_set_and_metadata(set(), t())),
        };
        Other { col, counts, histogram, used: 0, wrong: Ok(()) }
    }
    fn used(&mut self) {
        if self.wrong.is_ok() {
            self.wrong = catch(|| self.try_use()).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        }
    }
    fn try_use(&mut self) -> Check {
        self.used += 1;
        let id = self.col.with_labels(Grp(1));
        self.col.get_metric(id).0.fetch_add(1, Relaxed);
        self.counts.inc(Grp(2));
        self.histogram.observe(Grp(0), 3.0);
        let m = look(&self.col)?;
        if m != BTreeMap::from([(1, self.used + 7)]) {
            return Err(format!("the other metrics are {m:?} after {} updates", self.used));
        }
        let mut enc = BufferedTextEncoder::new();
        self.counts.collect_family_into(MetricName::from_str("c"), &mut enc).unwrap();
        self.histogram.collect_family_into(MetricName::from_str("h"), &mut enc).unwrap();
        let families = text::parse(&enc.finish(), true)?;
        let mut got: Vec<(String, f64, String)> = vec![];
        for x in families.iter().flat_map(|f| &f.samples) {
            let labels: Vec<String> = x.labels.iter().map(|l| format!("{}={}", l.0, l.1)).collect();
            got.push((x.name.clone(), x.value.parse().map_err(|_| format!("the value {:?}", x.value))?, labels.join(",")));
        }
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let u = self.used as f64;
        let hl = |le: &str| format!("a=0,b=1,le={le}");
        let bucket = |x: &(String, f64, String)| x.0 != "h_bucket" || x.2.starts_with("a=0,b=1,le=");
        let mut want = vec![("c".to_owned(), u, "a=2,b=3".to_owned()), ("h_count".to_owned(), u, "a=0,b=1".to_owned()), ("h_sum".to_owned(), 3.0 * u, "a=0,b=1".to_owned())];
        for (le, n) in [("1", 0.0), ("5", u), ("+Inf", u)] {
            want.push(("h_bucket".to_owned(), n, hl(le)));
        }
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let same = |(a, b): (&(String, f64, String), &(String, f64, String))| a.0 == b.0 && a.1 == b.1 && (a.0 == "h_bucket" || a.2 == b.2);
        if got.len() != want.len() || !got.iter().zip(&want).all(same) || !got.iter().all(bucket) {
            return Err(format!("the other metrics are exported as {got:?}, expected {want:?}"));
        }
        let mut enc = ProtoEncoder::new(vec![]);
        self.counts.collect_family_into(MetricName::from_str("c"), &mut enc).unwrap();
        enc.flush().unwrap();
        let fam = crate::proto::decode(&enc.writer).map_err(|e| format!("protobuf: {e}"))?;
        let ok = fam.len() == 1 && fam[0].name.as_deref() == Some("c") && fam[0].metrics.len() == 1 && fam[0].metrics[0].value == u;
        if !ok {
            return Err("the other metrics are exported wrongly with protobuf".to_owned());
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Hash)]
struct Code(u32);
impl PartialEq for Code {
    fn eq(&self, o: &Code) -> bool {
        pass(Point::Eq);
        self.0 == o.0
    }
}
impl Eq for Code {}
#[derive(Clone, Copy)]
struct Grp(u32);
struct Val(u32);
impl LabelValue for Val {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        pass(Point::Value);
        v.write_int(self.0 as i64)
    }
}
impl LabelGroup for Grp {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("a"), &Val(self.0));
        pass(Point::Group);
        v.write_value(LabelName::from_str("b"), &Val(self.0 ^ 1));
    }
}
struct Set {
    n: u32,
    known: bool,
}
impl LabelGroupSet for Set {
    type Group<'a> = Grp;
    type Unique = Code;
    fn cardinality(&self) -> Option<usize> {
        self.known.then_some(self.n as usize)
    }
    fn encode_dense(&self, v: Code) -> Option<usize> {
        pass(Point::EncodeDense);
        self.known.then_some(v.0 as usize)
    }
    fn decode_dense(&self, v: usize) -> Grp {
        pass(Point::DecodeDense);
        Grp(v as u32)
    }
    fn encode(&self, g: Grp) -> Option<Code> {
        pass(Point::Encode);
        (g.0 < self.n).then_some(Code(g.0))
    }
    fn decode(&self, c: &Code) -> Grp {
        pass(Point::Decode);
        Grp(c.0)
    }
}
struct State(AtomicU64);
impl Default for State {
    fn default() -> State {
        pass(Point::Default);
        State(AtomicU64::new(7))
    }
}
impl MetricType for State {
    type Metadata = ();
}
impl<W: io::Write> MetricEncoding<TextEncoder<W>> for State {
    fn write_type(name: impl MetricNameEncoder, enc: &mut TextEncoder<W>) -> io::Result<()> {
        pass(Point::Type);
        enc.write_type(&name, measured::text::MetricType::Counter)
    }
    fn collect_into(&self, _: &(), labels: impl LabelGroup, name: impl MetricNameEncoder, enc: &mut TextEncoder<W>) -> io::Result<()> {
        pass(Point::Collect);
        write_counter(enc, name, labels, self.0.load(Relaxed))?;
        pass(Point::Collected);
        Ok(())
    }
}
struct Name;
impl MetricNameEncoder for Name {
    fn encode_utf8(&self, b: &mut impl io::Write) -> io::Result<()> {
        pass(Point::Name);
        b.write_all(NAME.as_bytes())
    }
    fn encode_len(&self) -> usize {
        NAME.len()
    }
}
struct Sink;
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        pass(Point::Write);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    Inc { k: u32, by: u16, ex: bool },
    Lookup { k: u32 },
    Remove { k: u32 },
    Init,
    Card,
    Scrape { streaming: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Panics {
    n: u32,
    known: bool,
    repr: Repr,
    ops: Vec<(Do, Option<(Point, u32)>)>,
    /// the user's code uses other metrics, instead of panicking
    nested: Option<Repr>,
}
type Col = MetricVec<State, Set>;

fn look(v: &Col) -> Result<BTreeMap<u32, u64>, String> {
    let mut enc = BufferedTextEncoder::new();
    v.collect_family_into(MetricName::from_str(NAME), &mut enc).unwrap();
    let mut out = BTreeMap::new();
    for s in samples(&enc.finish())? {
        let label = |i: usize, n: &str| s.labels.get(i).filter(|l| l.0 == n).and_then(|l| l.1.parse::<u32>().ok()).ok_or(format!("a sample is labelled {:?}", s.labels));
        let (a, b) = (label(0, "a")?, label(1, "b")?);
        let value = s.value.parse().map_err(|_| format!("a counter is {:?}", s.value))?;
        if a ^ 1 != b || s.labels.len() != 2 || out.insert(a, value).is_some() {
            return Err(format!("unexpected sample {:?}", s.labels));
        }
    }
    Ok(out)
}

fn panics(c: &Panics, ctx: &mut Ctx) -> Check {
    let set = Set { n: c.n, known: c.known };
    let mut v: Col = match c.repr {
        Repr::Default => MetricVec::with_label_set(set),
        Repr::Dense if c.known => MetricVec::dense_with_label_set(set),
        _ => MetricVec::sparse_with_label_set(set),
    };
    let mut model: BTreeMap<u32, u64> = BTreeMap::new();
    let mut fired = 0;
    INSTEAD.set(c.nested.map(|r| Box::new(Other::new(c.known, r))));
    for (i, (op, fuse)) in c.ops.iter().enumerate() {
        let at = |m: String| format!("op {i} {op:?}, {fuse:?}: {m}");
        FUSE.set(*fuse);
        let done = catch(|| -> Result<Option<u64>, String> {
            match op {
                Do::Inc { k, by, ex } => {
                    let id = v.with_labels(Grp(k % c.n));
                    if *ex {
                        *v.get_metric_mut(id).0.get_mut() += *by as u64;
                    } else {
                        v.get_metric(id).0.fetch_add(*by as u64, Relaxed);
                    }
                }
                Do::Lookup { k } => {
                    let k = k % (c.n + 2);
                    if v.try_with_labels(Grp(k)).is_some() != (k < c.n) {
                        return Err(format!("lookup of {k} in a set of {}", c.n));
                    }
                }
                Do::Remove { k } => {
                    let id = v.with_labels(Grp(k % c.n));
                    return Ok(v.remove_metric(id).map(|m| m.0.into_inner()));
                }
                Do::Init => v.init_all_dense(),
                Do::Card => {
                    v.get_cardinality();
                }
                Do::Scrape { streaming: true } => v.collect_family_into(Name, &mut TextEncoder::new(Sink)).unwrap(),
                Do::Scrape { streaming: false } => v.collect_family_into(Name, &mut BufferedTextEncoder::new()).unwrap(),
            }
            Ok(None)
        });
        let fuse_left = FUSE.replace(None);
        let other = INSTEAD.take();
        if fuse.is_some() && fuse_left.is_none() {
            if let Some(o) = other {
                o.wrong.clone().map_err(|e| at(format!("used by the user's code meanwhile: {e}")))?;
                fired += 1;
                ctx.label(&format!("{:?} used metrics", fuse.unwrap().0));
                INSTEAD.set(Some(o));
            }
        } else {
            INSTEAD.set(other);
        }
        let panicked = match done {
            Ok(r) => {
                let removed = r.map_err(at)?;
                match op {
                    Do::Inc { k, by, .. } => *model.entry(k % c.n).or_insert(7) += *by as u64,
                    Do::Remove { k } if removed.is_some() => {
                        let want = model.remove(&(k % c.n));
                        if removed != want {
                            return Err(at(format!("returned {removed:?}, expected {want:?}")));
                        }
                    }
                    _ => {}
                }
                false
            }
            Err(p) if c.nested.is_none() && fuse.is_some() && fuse_left.is_none() => {
                if !p.contains("the user's code at") {
                    return Err(at(format!("the panic became {p}")));
                }
                true
            }
            Err(p) => return Err(at(format!("panicked by itself: {p}"))),
        };
        if panicked {
            fired += 1;
            ctx.label(&format!("{:?} panicked", fuse.unwrap().0));
        }
        let got = catch(|| look(&v)).map_err(|p| at(format!("the next scrape panicked: {p}")))?.map_err(at)?;
        if matches!(op, Do::Init) {
            // some of them, or none
            for (k, x) in &got {
                if *x == 7 {
                    model.entry(*k).or_insert(7);
                }
            }
        }
        if got != model {
            return Err(at(format!("{} the metrics are {got:?}, expected {model:?}", if panicked { "after the panic" } else { "afterwards" })));
        }
        if v.get_cardinality().0 != model.len() {
            return Err(at(format!("{} label groups are counted, expected {}", v.get_cardinality().0, model.len())));
        }
    }
    ctx.nontrivial_if(fired > 0 && !model.is_empty());
    Ok(())
}
fn panic_cases() -> impl Strategy<Value = Panics> {
    cases(false)
}
fn nested_cases() -> impl Strategy<Value = Panics> {
    cases(true)
}
fn cases(nested: bool) -> impl Strategy<Value = Panics> {
    use Point::*;
    let k = || prop_oneof![3 => 0u32..6, 1 => any::<u32>()];
    let n = || prop_oneof![4 => Just(0u32), 2 => 1u32..6, 1 => 0u32..300];
    let fuse = move |p: &'static [Point]| prop::option::weighted(0.5, (prop::sample::select(p), n()));
    let op = prop_oneof![
        6 => ((k(), 0u16..500, any::<bool>()).prop_map(|(k, by, ex)| Do::Inc { k, by, ex }), fuse(&[Default, Default, Encode, EncodeDense])),
        1 => (k().prop_map(|k| Do::Lookup { k }), fuse(&[Encode, EncodeDense])),
        2 => (k().prop_map(|k| Do::Remove { k }), fuse(&[Encode, EncodeDense, Eq])),
        1 => (Just(Do::Init), fuse(&[Default])),
        1 => (Just(Do::Card), fuse(&[Encode, Eq])),
        3 => (any::<bool>().prop_map(|streaming| Do::Scrape { streaming }), fuse(&[Decode, DecodeDense, Group, Value, Type, Collect, Collected, Name, Write, Write])),
    ];
    let size = prop_oneof![4 => 1u32..12, 1 => 12u32..200, 1 => 1000u32..1100];
    (size, any::<bool>(), repr(), repr(), prop::collection::vec(op, 1..30)).prop_map(move |(n, known, repr, other, ops)| Panics { n, known, repr, ops, nested: nested.then_some(other) })
}

// ---- writers that take their time

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Meanwhile {
    Upd { k: u32, vec: bool, u: Upd },
    Scrape,
    Card,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slow {
    spec: Spec,
    kind: KindTag,
    repr: Repr,
    alive: Vec<u32>,
    /// guards held during the scrape
    held: Vec<u8>,
    /// at which call of the writer something happens, counted from the one before
    during: Vec<(u8, Meanwhile)>,
    /// done by the writer itself
    here: bool,
}
/// Once an update has been blocked, smaller histories need not show it as thoroughly.
static BLOCKED: AtomicBool = AtomicBool::new(false);
/// Asks for the next thing to be done, and waits for it.
struct Asking {
    ask: mpsc::Sender<()>,
    done: mpsc::Receiver<()>,
    gaps: std::vec::IntoIter<u8>,
    left: Option<u8>,
    stuck: bool,
    out: Vec<u8>,
    here: Option<Box<dyn FnMut()>>,
}
impl Asking {
    fn step(&mut self) {
        while let (Some(0), false) = (self.left, self.stuck) {
            self.left = self.gaps.next();
            if let Some(f) = &mut self.here {
                f();
                continue;
            }
            if self.ask.send(()).is_err() {
                self.stuck = true;
                return;
            }
            let wait = Duration::from_secs(if BLOCKED.load(Relaxed) { 2 } else { 25 });
            if self.done.recv_timeout(wait).is_err() {
                BLOCKED.store(true, Relaxed);
                self.stuck = true;
            }
        }
        self.left = self.left.map(|n| n.saturating_sub(1));
    }
}
impl io::Write for Asking {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.step();
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Visitor<'a>(&'a Slow, &'a mut Ctx);
impl Visit for Visitor<'_> {
    type Out = Check;
    fn visit<S: Subject>(self, s: &S) -> Check {
        match self.0.kind {
            KindTag::Counter => slow_on::<KC, S>(s, self.0, self.1),
            KindTag::Gauge => slow_on::<KG, S>(s, self.0, self.1),
            KindTag::Float => slow_on::<KF, S>(s, self.0, self.1),
            KindTag::Histogram => slow_on::<KH, S>(s, self.0, self.1),
            KindTag::Own => slow_on::<KX, S>(s, self.0, self.1),
        }
    }
}
fn slow_on<K: Kind, S: Subject>(s: &S, c: &Slow, ctx: &mut Ctx) -> Check
where
    K::M: MetricEncoding<TextEncoder<Asking>>,
{
    let v = build::<K, S>(s, c.repr, false);
    let total = key_count(s);
    if total == 0 {
        return Ok(());
    }
    let mut keys: Vec<Key> = c.alive.iter().map(|k| nth(s, (*k as u64 % total) as u32).unwrap()).collect();
    keys.sort();
    keys.dedup();
    let mut states: BTreeMap<Key, Vec<Model>> = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() {
        let u = Upd { op: 1, v: i as i32 + 1 };
        K::guard(v.get_metric(v.with_labels(s.group(k))), u);
        let mut m = K::zero();
        K::model(&mut m, u);
        states.insert(k.clone(), vec![m]);
    }
    let pick = |k: u32| &keys[k as usize % keys.len()];
    // what is done while the writer waits
    let (ask, asked) = mpsc::channel();
    let (tell, done) = mpsc::channel();
    let mut gaps = c.during.iter().map(|d| d.0).collect::<Vec<_>>().into_iter();
    let left = gaps.next();
    let mut enc = TextEncoder::new(Asking { ask, done, gaps, left, stuck: false, out: vec![], here: None });
    let (ended, used, seen) = std::thread::scope(|scope| {
        let v = &v;
        let keys = &keys;
        let act = move |d: &Meanwhile| -> Check {
            match d {
                Meanwhile::Upd { k, vec, u } => {
                    let g = s.group(&keys[*k as usize % keys.len()]);
                    if *vec {
                        K::vec(v, g, *u)
                    } else {
                        K::guard(v.get_metric(v.with_labels(g)), *u)
                    }
                }
                Meanwhile::Scrape => samples(&crate::hist::scrape::<K, _>(v)).map(drop)?,
                Meanwhile::Card => {
                    if v.get_cardinality().0 != keys.len() {
                        return Err("the cardinality changed during the scrape".to_owned());
                    }
                }
            }
            Ok(())
        };
        let by_itself = Rc::new(RefCell::new((0, Ok(()))));
        if c.here {
            let b = by_itself.clone();
            let f: Box<dyn FnMut() + '_> = Box::new(move || {
                let mut b = b.borrow_mut();
                let r = act(&c.during[b.0].1);
                b.0 += 1;
                if b.1.is_ok() {
                    b.1 = r;
                }
            });
            // SAFETY: dropped below, before what it borrows
            enc.writer.here = Some(unsafe { std::mem::transmute::<Box<dyn FnMut() + '_>, Box<dyn FnMut() + 'static>>(f) });
        }
        let worker = scope.spawn(move || {
            let mut used = 0;
            let mut seen = Ok(());
            for (_, d) in &c.during {
                if asked.recv().is_err() {
                    break;
                }
                used += 1;
                seen = seen.and(act(d));
                let _ = tell.send(());
            }
            (used, seen)
        });
        let guards: Vec<_> = c.held.iter().map(|k| v.get_metric(v.with_labels(s.group(pick(*k as u32))))).collect();
        let ended = catch(|| v.collect_family_into(MetricName::from_str(NAME), &mut enc));
        drop(guards);
        enc.writer.here = None;
        // nobody asks any more
        let (nobody, _) = mpsc::channel();
        enc.writer.ask = nobody;
        let (mut used, mut seen) = worker.join().unwrap();
        if c.here {
            (used, seen) = Rc::try_unwrap(by_itself).unwrap().into_inner();
        }
        (ended, used, seen)
    });
    if enc.writer.stuck {
        return Err(format!("{:?} was blocked while a scrape waited for its writer", c.during[used.max(1) - 1].1));
    }
    ended.map_err(|p| format!("the scrape panicked: {p}"))?.map_err(|e| format!("the scrape failed: {e}"))?;
    seen?;
    // each update counted once, and each exported state is one there was
    let mut updates = 0;
    for (_, d) in &c.during[..used] {
        if let Meanwhile::Upd { k, u, .. } = d {
            let h = states.get_mut(pick(*k)).unwrap();
            let mut m = *h.last().unwrap();
            K::model(&mut m, *u);
            h.push(m);
            updates += 1;
        }
    }
    let got = samples(&enc.writer.out)?;
    let mut want: Vec<Vec<Want>> = vec![];
    for (k, h) in &states {
        let shown = |m: &Model| K::want(m, NAME, s.labels(k)).iter().all(|w| got.iter().any(|g| same_sample(w, g)));
        want.push(K::want(h.iter().find(|m| shown(m)).unwrap_or(&h[0]), NAME, s.labels(k)));
    }
    text::match_groups(&want, &got).map_err(|e| format!("the scrape during which there were {updates} updates shows what never was: {e}"))?;
    let last: BTreeMap<Key, Model> = states.into_iter().map(|(k, h)| (k, *h.last().unwrap())).collect();
    compare::<K, S>(s, &v, &last).map_err(|e| format!("after the scrape: {e}"))?;
    ctx.label(&format!("kind {:?}", c.kind));
    ctx.label_if(!c.held.is_empty(), "guards held");
    ctx.label_if(c.here, "used by the writer itself");
    ctx.label_if(updates > 0, "updated while the writer waited");
    ctx.nontrivial_if(updates > 0);
    Ok(())
}
fn same_sample(w: &Want, g: &text::Sample) -> bool {
    text::match_ordered(&[Want { name: w.name.clone(), labels: w.labels.clone(), value: match w.value { Num::Int(x) => Num::Int(x), Num::F(x) => Num::F(x) } }], std::slice::from_ref(g)).is_ok()
}
fn slow(c: &Slow, ctx: &mut Ctx) -> Check {
    let run = |c: &Slow, ctx: &mut Ctx| with(&c.spec, Visitor(c, ctx));
    if c.here {
        in_a_thread(c, ctx, run)
    } else {
        run(c, ctx)
    }
}
fn slow_cases() -> impl Strategy<Value = Slow> {
    let meanwhile = prop_oneof![
        6 => (any::<u32>(), any::<bool>(), upd()).prop_map(|(k, vec, u)| Meanwhile::Upd { k, vec, u }),
        1 => Just(Meanwhile::Scrape),
        1 => Just(Meanwhile::Card),
    ];
    let gap = prop_oneof![3 => 0u8..4, 2 => 0u8..30];
    (small_spec(), kind(), repr(), prop::collection::vec(0u32..60, 1..10), prop::collection::vec(any::<u8>(), 0..4), prop::collection::vec((gap, meanwhile), 1..12), any::<bool>())
        .prop_map(|(spec, kind, repr, alive, held, during, here)| Slow { spec, kind, repr, alive, held, during, here })
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        level: "exploration",
        rule: "panics, nested: the user's code panicked (used other metrics) at least once and a label group is alive at the end; writers: an update was made while the writer waited",
        arms: vec![Arm::new("panics", 40000, 500000, panic_cases, panics), Arm::new("nested", 30000, 400000, nested_cases, |c, ctx| in_a_thread(c, ctx, panics)), Arm::new("writers", 12000, 150000, slow_cases, slow)],
    }
}
