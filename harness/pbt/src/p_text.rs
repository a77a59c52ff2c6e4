//! C09 text parse-back, C10 purity and encoder reuse, C11 writer faults, C12 protobuf parse-back.
use crate::docs::*;
use crate::driver::*;
use crate::proto;
use crate::util::*;
use measured::metric::group::{ComposedGroup, Encoding};
use measured::metric::histogram::Thresholds;
use measured::metric::name::MetricName;
use measured::metric::MetricFamilyEncoding;
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::{Counter, CounterVec, FloatGauge, FloatGaugeVec, Gauge, GaugeVec, Histogram, HistogramVec, MetricGroup};
use measured_prometheus_protobuf::ProtoEncoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;
use std::sync::Arc;

fn text_stream(fams: &[Built], via: u8) -> Vec<u8> {
    let mut e = TextEncoder::new(Vec::new());
    collect_text(fams, &mut e, via).unwrap();
    e.flush().unwrap();
    e.writer
}
fn text_buffered(fams: &[Built], via: u8) -> Vec<u8> {
    let mut e = BufferedTextEncoder::new();
    collect_text(fams, &mut e, via).unwrap();
    e.finish().to_vec()
}
fn proto_bytes(fams: &[Built], via: u8) -> Vec<u8> {
    let mut e = ProtoEncoder::new(Vec::new());
    collect_proto(fams, &mut e, via).unwrap();
    e.flush().unwrap();
    e.writer
}
fn classify(d: &Doc, ctx: &mut Ctx) {
    for f in &d.fams {
        match &f.body {
            Body::Plain(k, _) => ctx.label(&format!("plain {k:?}")),
            Body::Vec(k, e) => {
                ctx.label(&format!("labelled {k:?}"));
                ctx.label_if(e.is_empty(), "labelled and empty");
                ctx.label_if(e.iter().any(|e| (e.first.clone() + &e.second).contains(['\\', '"', '\n'])), "label value to escape");
                ctx.label_if(e.iter().any(|e| e.first.len() > 126), "label value above 126 bytes");
            }
            Body::Dense(k, init, e) => {
                ctx.label(&format!("dense {k:?}"));
                ctx.label_if(*init, "dense, pre-initialised");
                ctx.label_if(e.is_empty() && !init, "dense and empty");
            }
            Body::Custom(_, t, e) => {
                ctx.label(if *t { "one-off writes, typed" } else { "one-off writes, untyped" });
                ctx.label_if(e.is_empty(), "one-off writes, none");
            }
            Body::Absent => ctx.label("absent"),
        }
        ctx.label_if(f.help.as_ref().is_some_and(|h| h.contains(['\\', '\n'])), "help to escape");
        ctx.label_if(f.help.is_none(), "no help");
        ctx.label_if(!f.ns.is_empty(), "in a namespace");
    }
    ctx.nontrivial_if(d.fams.iter().any(|f| match &f.body {
        Body::Plain(..) => true,
        Body::Vec(_, e) => !e.is_empty(),
        Body::Dense(_, i, e) => *i || !e.is_empty(),
        Body::Custom(_, _, e) => !e.is_empty(),
        Body::Absent => false,
    }));
}

fn text_roundtrip((d, via): &(Doc, u8), ctx: &mut Ctx) -> Check {
    classify(d, ctx);
    let fams = build(d);
    let s = text_stream(&fams, *via);
    check_text(&fams, &s).map_err(|e| format!("streamed: {e}\n{}", show(&s)))?;
    let b = text_buffered(&fams, *via);
    check_text(&fams, &b).map_err(|e| format!("buffered: {e}\n{}", show(&b)))
}
/// The streaming encoder used by hand: help and type lines in any combination and of every type.
type ByHand = Vec<(String, Option<String>, Option<u8>, Vec<(CustomGroup, Fl)>)>;
fn by_hand(fams: &ByHand, ctx: &mut Ctx) -> Check {
    use measured::metric::gauge::FloatGaugeState;
    use measured::metric::MetricEncoding;
    use measured::text::MetricType::*;
    const TYPES: [(measured::text::MetricType, &str); 5] = [(Counter, "counter"), (Histogram, "histogram"), (Gauge, "gauge"), (Summary, "summary"), (Untyped, "untyped")];
    let mut e = TextEncoder::new(Vec::new());
    for (name, help, typ, samples) in fams {
        let name = MetricName::try_from_str(name).unwrap();
        if let Some(h) = help {
            e.write_help(name, h).unwrap();
        }
        if let Some(t) = typ {
            e.write_type(&name, TYPES[*t as usize].0).unwrap();
        }
        for (g, v) in samples {
            FloatGaugeState::new(v.0).collect_into(&(), g, name, &mut e).unwrap();
        }
    }
    e.flush().unwrap();
    let got = crate::text::parse(&e.writer, true).map_err(|x| format!("{x}\n{}", show(&e.writer)))?;
    let want: Vec<_> = fams.iter().filter(|f| f.1.is_some() || f.2.is_some() || !f.3.is_empty()).collect();
    if got.len() != want.len() {
        return Err(format!("{} families instead of {}:\n{}", got.len(), want.len(), show(&e.writer)));
    }
    for (g, (name, help, typ, samples)) in got.iter().zip(want) {
        let typ = typ.map(|t| TYPES[t as usize].1);
        ctx.label(typ.unwrap_or("no type"));
        ctx.nontrivial_if(!samples.is_empty());
        let help = help.as_ref().map(|h| h.trim_start_matches([' ', '\t']));
        let same = g.samples.len() == samples.len() && g.samples.iter().zip(samples).all(|(s, (l, v))| s.name == *name && labels_match(&l.0, &s.labels) && crate::text::Num::F(v.0).matches(&s.value));
        if g.name != *name || g.help.as_deref() != help || g.typ.as_deref() != typ || !same {
            return Err(format!("expected {name} {help:?} {typ:?} {samples:?}, got {g:?}"));
        }
    }
    Ok(())
}
fn by_hand_case() -> impl Strategy<Value = ByHand> {
    let label = || ("[a-zA-Z_][a-zA-Z0-9_]{0,8}", lv());
    let sample = (prop::collection::vec(label(), 0..4), any_f64());
    // names that are no other family's bucket, sum or count
    let fam = ("[a-zA-Z_:][a-zA-Z0-9:]{0,9}", prop::option::of(any_text()), prop::option::of(0u8..5), prop::collection::vec(sample, 0..4));
    prop::collection::vec(fam, 0..6).prop_map(|fams| {
        let mut names = std::collections::HashSet::new();
        fams.into_iter()
            .map(|(mut name, help, typ, samples)| {
                while !names.insert(name.clone()) {
                    name.push('x')
                }
                let samples = samples
                    .into_iter()
                    .map(|(mut l, v)| {
                        let mut seen = std::collections::HashSet::from(["le".to_owned(), "quantile".to_owned()]);
                        for (n, _) in &mut l {
                            while !seen.insert(n.clone()) {
                                n.push('_')
                            }
                        }
                        (CustomGroup(l), v)
                    })
                    .collect();
                (name, help, typ, samples)
            })
            .collect()
    })
}
pub fn c09() -> Property {
    Property {
        id: "C09",
        level: "exploration",
        rule: "generated documents (names, helps, types, hostile label values, all metric kinds, plain/labelled/one-off/absent families in namespaces), exported by both text encoders and recovered by an independent parser of the format; non-trivial = at least one sample",
        arms: vec![Arm::new("roundtrip", 120000, 400000, || (doc(true, 5), 0u8..VIAS), text_roundtrip), Arm::new("large", 150, 3000, || (large(true), 0u8..VIAS), text_roundtrip), Arm::new("by hand", 60000, 300000, by_hand_case, by_hand)],
    }
}
/// Families whose size is around 2^14 or 2^21 bytes.
fn large(histograms: bool) -> impl Strategy<Value = Doc> {
    (doc(histograms, 3), prop::collection::vec((any::<u16>(), prop::sample::select(vec![13usize, 14, 21, 21]), -300isize..50, prop::sample::select(vec!["x", "\n", "é", "a\"b"])), 1..3)).prop_map(|(mut d, long)| {
        for (at, shift, more, s) in long {
            let n = (1isize << shift) + more;
            let text = s.repeat(n as usize / s.len());
            let k = d.fams.len();
            if k == 0 {
                continue;
            }
            let f = &mut d.fams[at as usize % k];
            match &mut f.body {
                Body::Vec(_, e) if !e.is_empty() => {
                    let k = e.len();
                    e[at as usize / 7 % k].first = text
                }
                Body::Custom(_, _, e) if !e.is_empty() => {
                    let k = e.len();
                    e[at as usize / 7 % k].0 .0.push(("zz_long".into(), LV::Str(text)))
                }
                _ => f.help = Some(text),
            }
        }
        d
    })
}

fn proto_roundtrip((d, via): &(Doc, u8), ctx: &mut Ctx) -> Check {
    classify(d, ctx);
    let fams = build(d);
    let p = proto_bytes(&fams, *via);
    let got = proto::decode(&p).map_err(|e| format!("{e}\n{p:?}"))?;
    check_proto(&fams, &got)?;
    // the same metrics in the text format
    check_text(&fams, &text_stream(&fams, *via)).map_err(|e| format!("text export: {e}"))
}
/// One string so long that the lengths around it need up to five bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Enormous {
    shift: u8,
    more: i32,
    /// in the help text, or in a label
    help: bool,
    around: u8,
}
struct Long(String);
impl measured::label::LabelValue for Long {
    fn visit<V: measured::label::LabelVisitor>(&self, v: V) -> V::Output {
        v.write_str(&self.0)
    }
}
impl measured::LabelGroup for Long {
    fn visit_values(&self, v: &mut impl measured::label::LabelGroupVisitor) {
        v.write_value(measured::label::LabelName::from_str("l"), self);
    }
}
fn enormous(c: &Enormous, ctx: &mut Ctx) -> Check {
    use measured::label::NoLabels;
    use measured::metric::counter::{write_counter, CounterState};
    use measured::metric::MetricEncoding;
    type E = ProtoEncoder<Vec<u8>>;
    let n = ((1i64 << c.shift) + c.more as i64) as usize;
    let long = Long("x".repeat(n));
    let mut enc = ProtoEncoder::new(Vec::with_capacity(n + 1000));
    const NAMES: [&MetricName; 3] = [MetricName::from_str("a"), MetricName::from_str("b"), MetricName::from_str("the_long_one")];
    let names = ["a", "b", "the_long_one"];
    let mut run = || -> io::Result<()> {
        let few = |enc: &mut E| -> io::Result<()> {
            for i in 0..c.around % 3 {
                <CounterState as MetricEncoding<E>>::write_type(NAMES[i as usize], enc)?;
                write_counter(enc, NAMES[i as usize], NoLabels, i as u64)?;
            }
            Ok(())
        };
        few(&mut enc)?;
        if c.help {
            enc.write_help(NAMES[2], &long.0)?;
        }
        <CounterState as MetricEncoding<E>>::write_type(NAMES[2], &mut enc)?;
        if c.help {
            write_counter(&mut enc, NAMES[2], NoLabels, 7)?;
        } else {
            write_counter(&mut enc, NAMES[2], &long, 7)?;
            write_counter(&mut enc, NAMES[2], NoLabels, 8)?;
        }
        few(&mut enc)?;
        enc.flush()
    };
    run().map_err(|e| format!("error {e}"))?;
    let got = proto::decode(&std::mem::take(&mut enc.writer))?;
    drop(enc);
    let few = (0..c.around as usize % 3).map(|i| (names[i], vec![i as f64]));
    let all: Vec<_> = few.clone().chain([(names[2], if c.help { vec![7.0] } else { vec![7.0, 8.0] })]).chain(few).collect();
    if got.len() != all.len() {
        return Err(format!("{} families, not {}", got.len(), all.len()));
    }
    for (f, (name, values)) in got.iter().zip(&all) {
        let v: Vec<f64> = f.metrics.iter().map(|m| m.value).collect();
        if f.name.as_deref() != Some(name) || v != *values {
            return Err(format!("family {:?} with {v:?}, not {name} with {values:?}", f.name));
        }
        let is = *name == names[2];
        if f.help.as_deref() != (is && c.help).then_some(&long.0[..]) {
            return Err(format!("the help text of {name} has {:?} bytes, not {n}", f.help.as_ref().map(|h| h.len())));
        }
        let labels: Vec<&(String, String)> = f.metrics.iter().flat_map(|m| &m.labels).collect();
        let ok = if is && !c.help { labels.len() == 1 && labels[0].0 == "l" && labels[0].1 == long.0 } else { labels.is_empty() };
        if !ok {
            return Err(format!("the labels of {name} are {:?}", labels.iter().map(|(n, v)| (n, v.len())).collect::<Vec<_>>()));
        }
    }
    ctx.nontrivial_if(true);
    Ok(())
}
pub fn c12() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "generated sequences of counter and gauge families (with and without help, types and samples, strings across varint length boundaries) exported as protobuf and recovered by an independent decoder; non-trivial = at least one sample",
        arms: vec![
            Arm::new("roundtrip", 120000, 400000, || (doc(false, 6), 0u8..VIAS), proto_roundtrip),
            Arm::new("large", 150, 3000, || (large(false), 0u8..VIAS), proto_roundtrip),
            Arm::serial(
                "enormous",
                16,
                120,
                || (prop::sample::select(vec![7u8, 14, 21, 28, 28, 28]), prop_oneof![1 => -60i32..20, 1 => 20i32..40_000_000], any::<bool>(), any::<u8>()).prop_map(|(shift, more, help, around)| Enormous { shift, more, help, around }),
                enormous,
            ),
        ],
    }
}

// ---- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Update { fam: u16, sample: u16, val: Val },
    /// export the families in `mask` (bit i: family i) in order, through every encoder
    Scrape { mask: u8, via: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReuseCase {
    doc: Doc,
    steps: Vec<Step>,
}
fn reuse(histograms: bool) -> impl Fn(&ReuseCase, &mut Ctx) -> Check + Sync + Clone {
    move |c, ctx| {
        let mut fams = build(&c.doc);
        let mut text = TextEncoder::new(Vec::new());
        let mut buffered = if c.steps.len() % 2 == 0 { BufferedTextEncoder::new() } else { BufferedTextEncoder::default() };
        let mut proto = ProtoEncoder::new(Vec::new());
        let mut scrapes = 0;
        for (i, s) in c.steps.iter().enumerate() {
            match s {
                Step::Update { fam, sample, val } => {
                    if fams.is_empty() {
                        continue;
                    }
                    let f = *fam as usize * fams.len() >> 16;
                    let n = fams[f].len();
                    if n > 0 {
                        fams[f].update(*sample as usize * n >> 16, val);
                    }
                }
                Step::Scrape { mask, via } => {
                    scrapes += 1;
                    let mut j = 0;
                    let (take, keep): (Vec<_>, Vec<_>) = std::mem::take(&mut fams).into_iter().map(|f| { j += 1; (mask >> ((j - 1) % 8) & 1 == 1, j, f) }).partition(|x| x.0);
                    let sub: Vec<Built> = take.into_iter().map(|x| x.2).collect::<Vec<_>>();
                    let r = (|| -> Check {
                        let fresh = text_stream(&sub, 0);
                        check_text(&sub, &fresh).map_err(|e| format!("fresh text encoder: {e}\n{}", show(&fresh)))?;
                        let eq = |what: &str, got: &[u8], want: &[u8]| if got == want { Ok(()) } else { Err(format!("{what} differs from a fresh encoder:\n--- got\n{}\n--- fresh\n{}", show(got), show(want))) };
                        for round in 0..2 {
                            let what = |s: &str| format!("{s}, scrape {} in a row", round + 1);
                            collect_text(&sub, &mut text, *via).unwrap();
                            text.flush().unwrap();
                            eq(&what("reused streaming text"), &std::mem::take(&mut text.writer), &fresh)?;
                            collect_text(&sub, &mut buffered, *via).unwrap();
                            eq(&what("reused buffered text"), &buffered.finish(), &fresh)?;
                            eq(&what("fresh streaming text"), &text_stream(&sub, *via), &fresh)?;
                            eq(&what("fresh buffered text"), &text_buffered(&sub, *via), &fresh)?;
                        }
                        if !histograms {
                            let fresh = proto_bytes(&sub, 0);
                            check_proto(&sub, &proto::decode(&fresh)?)?;
                            for round in 0..2 {
                                collect_proto(&sub, &mut proto, *via).unwrap();
                                proto.flush().unwrap();
                                eq(&format!("reused protobuf, scrape {} in a row", round + 1), &std::mem::take(&mut proto.writer), &fresh)?;
                                eq("fresh protobuf", &proto_bytes(&sub, *via), &fresh)?;
                            }
                        }
                        Ok(())
                    })();
                    r.map_err(|e| format!("step {i}: {e}"))?;
                    let mut all: Vec<(usize, Built)> = keep.into_iter().map(|x| (x.1, x.2)).collect();
                    let taken: Vec<usize> = (1..=j).filter(|j| mask >> ((j - 1) % 8) & 1 == 1).collect();
                    all.extend(taken.into_iter().zip(sub));
                    all.sort_by_key(|x| x.0);
                    fams = all.into_iter().map(|x| x.1).collect();
                }
            }
        }
        ctx.label_if(scrapes >= 2, "encoder reused with different contents");
        ctx.nontrivial_if(scrapes >= 2 && !fams.is_empty());
        Ok(())
    }
}
fn reuse_case(h: bool) -> impl Strategy<Value = ReuseCase> {
    let val = || (any_u64(), any_f64(), prop::collection::vec(any_f64(), 0..3)).prop_map(|(u, f, obs)| Val { u, f, obs });
    let step = prop_oneof![
        (any::<u16>(), any::<u16>(), val()).prop_map(|(fam, sample, val)| Step::Update { fam, sample, val }),
        (any::<u8>(), 0u8..VIAS).prop_map(|(mask, via)| Step::Scrape { mask, via }),
    ];
    (doc(h, 6), prop::collection::vec(step, 1..8)).prop_map(|(doc, steps)| ReuseCase { doc, steps })
}
pub fn c10() -> Property {
    Property {
        id: "C10",
        level: "exploration",
        rule: "generated sequences of updates and scrapes of varying families through one long-lived encoder of each kind, each compared byte for byte with fresh encoders, twice in a row, through references, shared pointers, options and composed groups; non-trivial = at least two scrapes",
        arms: vec![Arm::new("text", 40000, 300000, || reuse_case(true), reuse(true)), Arm::new("text and protobuf", 40000, 300000, || reuse_case(false), reuse(false))],
    }
}

// ---- C11

/// How the writer behaves: sizes it accepts per call (0 = interrupted), and where it fails for good.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    sizes: Vec<u8>,
    /// 0: an error, 1: accepts nothing (WriteZero), 2: only flush fails
    fail: u8,
    /// attempt a flush with the failed writer before going on
    flush_after: bool,
    /// an error happens only once; later writes would work again
    transient: bool,
}
struct Faulty {
    out: Rc<RefCell<Vec<u8>>>,
    sizes: Vec<u8>,
    next: usize,
    limit: usize,
    fail: u8,
    failed: bool,
    transient: bool,
    flushed: Rc<RefCell<(u32, bool)>>,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        if !self.sizes.is_empty() {
            let s = self.sizes[self.next % self.sizes.len()];
            self.next += 1;
            match s {
                0 => return Err(io::ErrorKind::Interrupted.into()),
                255 => {}
                s => n = n.min(s as usize),
            }
        }
        let mut out = self.out.borrow_mut();
        let room = self.limit.saturating_sub(out.len());
        if room == 0 && !(self.failed && self.transient) && self.fail != 2 {
            self.failed = true;
            self.flushed.borrow_mut().1 = true;
            return if self.fail == 1 { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "planned")) };
        }
        if self.fail != 2 && !self.failed {
            n = n.min(room);
        }
        out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed.borrow_mut().0 += 1;
        if self.fail == 2 && !(self.failed && self.transient) {
            self.failed = true;
            self.flushed.borrow_mut().1 = true;
            return Err(io::Error::new(io::ErrorKind::Other, "planned"));
        }
        Ok(())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase {
    first: Doc,
    second: Doc,
    plan: Plan,
    /// how the documents are exported
    #[serde(default)]
    via: u8,
    /// where the writer fails when not every place is tried
    at: Vec<u16>,
}
macro_rules! fault_check {
    ($fname:ident, $enc:ident, $build:ident, $collect:ident, $fresh:ident, $same:expr) => {
        fn $fname(c: &FaultCase, ctx: &mut Ctx) -> Check {
            let (first, second) = ($build(&c.first), $build(&c.second));
            let (perfect, perfect2) = ($fresh(&first, 0), $fresh(&second, 0));
            let writer = |limit: usize, fail: u8| {
                let out = Rc::new(RefCell::new(vec![]));
                let seen = Rc::new(RefCell::new((0, false)));
                (Faulty { out: out.clone(), sizes: if c.plan.sizes.iter().all(|s| *s == 0) { vec![] } else { c.plan.sizes.clone() }, next: 0, limit, fail, failed: false, transient: c.plan.transient, flushed: seen.clone() }, out, seen)
            };
            // (limit, kind): every place it can fail if there are few, and never
            let n = perfect.len();
            let mut places: Vec<usize> = if n <= 400 { (0..n).collect() } else { c.at.iter().map(|a| *a as usize * n >> 16).chain([0, n - 1]).collect() };
            places.push(usize::MAX);
            let fail = c.plan.fail % 3;
            if fail == 2 {
                places = vec![usize::MAX];
            }
            for limit in places {
                let (w, out, seen) = writer(limit, if limit == usize::MAX && fail != 2 { 0 } else { fail });
                let mut enc = $enc::new(w);
                let collected = $collect(&first, &mut enc, c.via);
                let collect_failed = collected.is_err();
                if let Err(e) = &collected {
                    ctx.label(&format!("collect: {:?}", e.kind()));
                }
                let mut result = collected;
                let mut delivered = out.borrow().clone();
                if result.is_ok() {
                    result = enc.flush();
                    ctx.label_if(result.is_err(), "flush fails");
                    delivered = out.borrow().clone();
                } else if c.plan.flush_after {
                    let _ = enc.flush();
                }
                let failed = seen.borrow().1;
                let what = format!("fault kind {fail} at byte {limit} of {n}");
                if !perfect.starts_with(&delivered) {
                    return Err(format!("{what}: delivered bytes are not a prefix of the right ones:\n--- delivered\n{}\n--- right\n{}", show(&delivered), show(&perfect)));
                }
                match (&result, failed) {
                    (Ok(()), true) => return Err(format!("{what}: the writer failed but the export succeeded")),
                    (Err(e), false) => return Err(format!("{what}: the export failed although the writer never did: {e:?}")),
                    (Ok(()), false) if delivered != perfect => return Err(format!("{what}: a successful export delivered\n{}\n--- instead of\n{}", show(&delivered), show(&perfect))),
                    _ => {}
                }
                if result.is_ok() && seen.borrow().0 == 0 {
                    return Err("a successful export never flushed the writer".into());
                }
                // the same encoder, a working writer
                let (w, out, _) = writer(usize::MAX, 0);
                enc.writer = w;
                $collect(&second, &mut enc, c.via).map_err(|e| format!("{what}: the next export fails: {e:?}"))?;
                enc.flush().map_err(|e| format!("{what}: the next export fails in flush: {e:?}"))?;
                let got = out.borrow().clone();
                if !($same)(&got, &perfect2, failed) {
                    return Err(format!("{what}: the next export is\n{}\n--- instead of\n{}", show(&got), show(&perfect2)));
                }
                ctx.label_if(failed && collect_failed, "fails while collecting");
                ctx.nontrivial_if(failed || !c.plan.sizes.is_empty() && n > 0);
            }
            Ok(())
        }
    };
}
fault_check!(text_faults, TextEncoder, build, collect_text, text_stream, |got: &[u8], want: &[u8], failed: bool| {
    // After a failure the blank line that separates families may come first.
    got == want || failed && got.strip_prefix(b"\n") == Some(want)
});
fault_check!(proto_faults, ProtoEncoder, build, collect_proto, proto_bytes, |got: &[u8], want: &[u8], _| got == want);

// Derived groups: fields, flattened and namespaced groups, options, composed groups. What they say
// is C14's matter; here only that a failure stops them.
#[derive(MetricGroup)]
#[metric(new())]
struct Inner {
    /// inner one
    inner_one: Counter,
    inner_two: GaugeVec<DenseSet>,
}
#[derive(MetricGroup)]
#[metric(new())]
struct Mixed {
    /// a counter
    one_total: Counter,
    two: CounterVec<DenseSet>,
    /// empty or not
    #[metric(label_set = text_set())]
    three: FloatGaugeVec<TextSet>,
    #[metric(flatten, init = Inner::new())]
    flat: Inner,
    #[metric(namespace = "ns", init = Inner::new())]
    spaced: Inner,
    #[metric(namespace = "both", init = ComposedGroup(None, Inner::new()))]
    both: ComposedGroup<Option<Arc<Inner>>, Inner>,
    /// maybe
    maybe: Option<Gauge>,
    last: FloatGauge,
}
#[derive(MetricGroup)]
#[metric(new())]
struct MixedHist {
    #[metric(flatten, init = Mixed::new())]
    mixed: Mixed,
    /// plain
    #[metric(metadata = Thresholds::with_buckets(BOUNDS))]
    plain: Histogram<3>,
    #[metric(metadata = Thresholds::with_buckets(BOUNDS))]
    dense: HistogramVec<DenseSet, 3>,
}
fn build_derived(d: &Doc) -> MixedHist {
    let mut all = MixedHist::new();
    let m = &mut all.mixed;
    m.both.0 = (d.fams.len() % 3 > 0).then(|| Arc::new(Inner::new()));
    m.maybe = (d.fams.len() % 2 == 0).then(Gauge::new);
    for (i, f) in d.fams.iter().enumerate() {
        let g = dense_group((i % 9) as u8);
        m.one_total.inc_by(i as u64);
        m.last.inc();
        match f.help {
            Some(_) => m.two.inc(g),
            None => m.spaced.inner_two.set(g, -(i as i64)),
        }
        if let Some(h) = &f.help {
            m.three.set(TextGroup { first: h, kind: three(i as u8), second: &f.name }, i as f64);
        }
        m.flat.inner_two.inc(g);
        m.both.1.inner_one.inc();
        all.plain.observe(i as f64);
        all.dense.observe(g, f.name.len() as f64);
    }
    all
}
fn derived_text<W: Write>(d: &MixedHist, e: &mut TextEncoder<W>, via: u8) -> io::Result<()> {
    match via % 3 {
        0 => d.collect_group_into(e),
        1 => (&Some(d)).collect_group_into(&mut &mut *e),
        _ => ComposedGroup(ComposedGroup(&d.mixed, None::<&MixedHist>), ComposedGroup(AsGroup("plain", Some("plain"), &d.plain), AsGroup("dense", None, &d.dense))).collect_group_into(e),
    }
}
fn derived_proto<W: Write>(d: &MixedHist, e: &mut ProtoEncoder<W>, via: u8) -> io::Result<()> {
    match via % 3 {
        0 => d.mixed.collect_group_into(e),
        1 => (&Some(&d.mixed)).collect_group_into(&mut &mut *e),
        _ => ComposedGroup(None::<&Mixed>, &d.mixed).collect_group_into(e),
    }
}
/// A metric under a name and help.
struct AsGroup<'a, M>(&'static str, Option<&'static str>, &'a M);
impl<E: Encoding, M: MetricFamilyEncoding<E>> MetricGroup<E> for AsGroup<'_, M> {
    fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
        let name = MetricName::from_str(self.0);
        if let Some(h) = self.1 {
            enc.write_help(name, h)?;
        }
        self.2.collect_family_into(name, enc)
    }
}
fn derived_text_fresh(d: &MixedHist, _: u8) -> Vec<u8> {
    let mut e = TextEncoder::new(Vec::new());
    derived_text(d, &mut e, 0).unwrap();
    e.flush().unwrap();
    e.writer
}
fn derived_proto_fresh(d: &MixedHist, _: u8) -> Vec<u8> {
    let mut e = ProtoEncoder::new(Vec::new());
    derived_proto(d, &mut e, 0).unwrap();
    e.flush().unwrap();
    e.writer
}
fault_check!(derived_text_faults, TextEncoder, build_derived, derived_text, derived_text_fresh, |got: &[u8], want: &[u8], failed: bool| got == want || failed && got.strip_prefix(b"\n") == Some(want));
fault_check!(derived_proto_faults, ProtoEncoder, build_derived, derived_proto, derived_proto_fresh, |got: &[u8], want: &[u8], _| got == want);


fn fault_case(h: bool) -> impl Strategy<Value = FaultCase> {
    let size = prop_oneof![1 => Just(0u8), 4 => 1u8..6, 1 => 6u8..255, 1 => Just(255u8)];
    let plan = (prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(size, 1..6)], 0u8..3, any::<bool>(), any::<bool>()).prop_map(|(sizes, fail, flush_after, transient)| Plan { sizes, fail, flush_after, transient });
    (doc(h, 3), doc(h, 2), plan, 0u8..VIAS, prop::collection::vec(any::<u16>(), 20)).prop_map(|(first, second, plan, via, at)| FaultCase { first, second, plan, via, at })
}
pub fn c11() -> Property {
    Property {
        id: "C11",
        level: "exploration",
        rule: "generated documents exported to writers that split, interrupt and limit writes and fail (error, no progress, flush error, once or for good) at every byte position of short documents and 22 positions of long ones, followed by a second export with the same encoder; non-trivial = the writer failed or split writes",
        arms: vec![Arm::new("text", 12000, 120000, || fault_case(true), text_faults), Arm::new("protobuf", 24000, 240000, || fault_case(false), proto_faults), Arm::new("derived text", 1500, 15000, || fault_case(true), derived_text_faults), Arm::new("derived protobuf", 3000, 30000, || fault_case(false), derived_proto_faults)],
    }
}
