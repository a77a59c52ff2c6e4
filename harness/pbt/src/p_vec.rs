//! C01-C03: labelled collections against the map model and against each other.
use crate::driver::*;
use crate::hist::*;
use crate::sets::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub spec: Spec,
    pub kind: KindTag,
    pub repr: Repr,
    pub ops: Vec<Op>,
}

struct RunModel<'a>(&'a Case, &'a mut Ctx);
impl Visit for RunModel<'_> {
    type Out = Check;
    fn visit<S: Subject>(self, s: &S) -> Check {
        let c = self.0;
        match c.kind {
            KindTag::Counter => run_model::<KC, S>(s, c.repr, &c.ops, self.1),
            KindTag::Gauge => run_model::<KG, S>(s, c.repr, &c.ops, self.1),
            KindTag::Float => run_model::<KF, S>(s, c.repr, &c.ops, self.1),
            KindTag::Histogram => run_model::<KH, S>(s, c.repr, &c.ops, self.1),
            KindTag::Own => run_model::<KX, S>(s, c.repr, &c.ops, self.1),
        }
    }
}
fn model(c: &Case, ctx: &mut Ctx) -> Check {
    ctx.label(&format!("shape {:?}", c.spec.shape));
    ctx.label(&format!("kind {:?}", c.kind));
    with(&c.spec, RunModel(c, ctx))
}

struct RunDiff<'a>(&'a Case, &'a mut Ctx);
impl Visit for RunDiff<'_> {
    type Out = Check;
    fn visit<S: Subject>(self, s: &S) -> Check {
        let c = self.0;
        match c.kind {
            KindTag::Counter => diff::<KC, S>(s, c, self.1),
            KindTag::Gauge => diff::<KG, S>(s, c, self.1),
            KindTag::Float => diff::<KF, S>(s, c, self.1),
            KindTag::Histogram => diff::<KH, S>(s, c, self.1),
            KindTag::Own => diff::<KX, S>(s, c, self.1),
        }
    }
}
fn diff<K: Kind, S: Subject>(s: &S, c: &Case, ctx: &mut Ctx) -> Check {
    let mut runs = vec![(Repr::Default, None), (Repr::Sparse, None), (Repr::Sparse, Some(true)), (Repr::Default, Some(false)), (Repr::Sparse, Some(false))];
    if s.cardinality().is_some() {
        runs.push((Repr::Dense, None));
        runs.push((Repr::Dense, Some(true)));
        runs.push((Repr::Dense, Some(false)));
        ctx.label("dense compared");
    }
    let first = run_transcript::<K, S>(s, runs[0].0, &c.ops, runs[0].1)?;
    for r in &runs[1..] {
        let t = run_transcript::<K, S>(s, r.0, &c.ops, r.1)?;
        if t != first {
            let d = first.events.iter().zip(&t.events).find(|(a, b)| a != b).map(|(a, b)| format!("{a} vs {b}"));
            let e = first.scrapes.iter().zip(&t.scrapes).find(|(a, b)| a != b).map(|(a, b)| {
                let only = |x: &Vec<String>, y: &Vec<String>| x.iter().filter(|s| !y.contains(s)).take(3).cloned().collect::<Vec<_>>();
                format!("only in the first {:?}, only in the second {:?}", only(a, b), only(b, a))
            });
            return Err(format!("{:?} and {:?} differ: {d:?} {e:?}", runs[0], r));
        }
    }
    let n = first.scrapes.last().map_or(0, |s| s.len());
    ctx.nontrivial_if(n >= 2);
    ctx.label_if(n > 1024, "over 1024 samples");
    Ok(())
}
fn differential(c: &Case, ctx: &mut Ctx) -> Check {
    ctx.label(&format!("shape {:?}", c.spec.shape));
    ctx.label(&format!("kind {:?}", c.kind));
    with(&c.spec, RunDiff(c, ctx))
}

/// Every constructor of sets and metadata that have a default gives the same kind of collection.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Built {
    set: u8,
    kind: KindTag,
    repr: Repr,
    /// 0 nothing given, 1 `default`, 2 metadata, 3 label set, 4 both
    given: u8,
    ops: Vec<Op>,
}
type Col<K, S> = measured::metric::MetricVec<<K as Kind>::M, <S as Subject>::Set>;
fn full<K: Kind, S: Subject>(s: &S, repr: Repr, given: u8) -> Col<K, S> where S::Set: Default {
    use measured::metric::MetricVec as V;
    match (given, repr) {
        (2, Repr::Default) => V::with_metadata(K::metadata()),
        (2, Repr::Dense) => V::dense_with_metadata(K::metadata()),
        (2, Repr::Sparse) => V::sparse_with_metadata(K::metadata()),
        (_, Repr::Default) => V::with_label_set_and_metadata(s.new_set(), K::metadata()),
        (_, Repr::Dense) => V::dense_with_label_set_and_metadata(s.new_set(), K::metadata()),
        (_, Repr::Sparse) => V::sparse_with_label_set_and_metadata(s.new_set(), K::metadata()),
    }
}
fn thin<K: Kind, S: Subject>(s: &S, repr: Repr, given: u8) -> Col<K, S> where S::Set: Default, <K::M as measured::metric::MetricType>::Metadata: Default {
    use measured::metric::MetricVec as V;
    match (given, repr) {
        (0, Repr::Default) => V::new(),
        (0, Repr::Dense) => V::dense(),
        (0, Repr::Sparse) => V::sparse(),
        (1, Repr::Default) => V::default(),
        (1, Repr::Dense) => V::dense(),
        (1, Repr::Sparse) => V::sparse(),
        (3, Repr::Default) => V::with_label_set(s.new_set()),
        (3, Repr::Dense) => V::dense_with_label_set(s.new_set()),
        (3, Repr::Sparse) => V::sparse_with_label_set(s.new_set()),
        _ => full::<K, S>(s, repr, given),
    }
}
fn built_on<K: Kind, S: Subject>(s: &S, c: &Built, make: impl Fn(&S, Repr, u8) -> Col<K, S>, ctx: &mut Ctx) -> Check where S::Set: Default {
    let repr = if c.repr == Repr::Dense && s.cardinality().is_none() { Repr::Sparse } else { c.repr };
    let is_dense = |v: &mut Col<K, S>| {
        v.init_all_dense();
        let n = v.get_cardinality().0;
        let id = v.with_labels(s.group(&nth(s, 0).unwrap()));
        drop(v.get_metric(id));
        (n > 0, v.remove_metric(id).is_none())
    };
    let want = match repr {
        // the choice is the collection's, but the same whatever it is built from
        Repr::Default => is_dense(&mut full::<K, S>(s, repr, 4)),
        Repr::Dense => (true, true),
        Repr::Sparse => (false, false),
    };
    let got = is_dense(&mut make(s, repr, c.given));
    if got != want {
        return Err(format!("pre-initialised, refuses removal: {got:?}, expected {want:?}"));
    }
    ctx.label(if got.0 { "dense" } else { "sparse" });
    ctx.label(&format!("given {}", c.given));
    run_on::<K, S>(s, make(s, repr, c.given), got.1, &c.ops, ctx)
}
fn built(c: &Built, ctx: &mut Ctx) -> Check {
    macro_rules! kinds { ($s:expr) => { match c.kind {
        KindTag::Counter => built_on::<KC, _>(&$s, c, thin::<KC, _>, ctx),
        KindTag::Gauge => built_on::<KG, _>(&$s, c, thin::<KG, _>, ctx),
        KindTag::Float => built_on::<KF, _>(&$s, c, thin::<KF, _>, ctx),
        KindTag::Histogram => built_on::<KH, _>(&$s, c, full::<KH, _>, ctx),
        KindTag::Own => built_on::<KX, _>(&$s, c, thin::<KX, _>, ctx),
    } } }
    match c.set % 6 {
        0 => kinds!(SKind),
        1 => kinds!(SLone),
        2 => kinds!(STwo),
        3 => kinds!(SDyn(Pool::dynamic(6, "u"))),
        4 => kinds!(SFiveVerbs),
        _ => kinds!(SFourCodes),
    }
}
fn builts() -> impl Strategy<Value = Built> {
    (0u8..6, kind(), repr(), 0u8..5, prop::collection::vec(op(6), 0..12)).prop_map(|(set, kind, repr, given, ops)| Built { set, kind, repr, given, ops })
}

fn cases(spec: BoxedStrategy<Spec>, op: BoxedStrategy<Op>, max: usize) -> impl Strategy<Value = Case> {
    (spec, kind(), repr(), prop::collection::vec(op, 1..max)).prop_map(|(spec, kind, repr, ops)| Case { spec, kind, repr, ops })
}
const RULE: &str = "generated op histories over the label-set shapes in sets.rs; non-trivial = at least two label groups exported and three updates";

pub fn c01() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        rule: RULE,
        arms: vec![
            Arm::new("histories", 80000, 600000, || cases(small_spec(), op(0), 60), model),
            Arm::new("large", 1500, 12000, || cases(large_spec(), bulk_op(false), 8), model),
            Arm::new("huge", 200, 2000, || cases(huge_spec(), far_op(false), 30), model),
        ],
    }
}
pub fn c02() -> Property {
    Property {
        id: "C02",
        level: "exploration",
        rule: "the same generated history on default, dense and sparse collections, with shared and exclusive access forced; non-trivial = at least two samples exported",
        arms: vec![
            Arm::new("histories", 16000, 160000, || cases(small_spec(), op(0), 50), differential),
            Arm::new("large", 400, 3500, || cases(large_spec(), bulk_op(false), 7), differential),
            Arm::new("huge", 64, 640, || cases(huge_spec(), far_op(false), 20), differential),
            Arm::new("constructors", 4000, 40000, builts, built),
        ],
    }
}
pub fn c03() -> Property {
    Property {
        id: "C03",
        level: "exploration",
        rule: "as C01 with removal, re-creation, pre-initialisation and cardinality ops; non-trivial = at least two label groups exported at the end and three updates",
        arms: vec![
            Arm::new("histories", 80000, 600000, || cases(small_spec(), op(12), 60), model),
            Arm::new("large", 1500, 12000, || cases(large_spec(), bulk_op(true), 8), model),
            Arm::new("huge", 200, 2000, || cases(huge_spec(), far_op(true), 30), model),
        ],
    }
}
