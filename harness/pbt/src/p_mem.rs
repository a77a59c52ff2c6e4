//! C24: what is held in memory depends on what is alive, not on what has happened.
use crate::docs::{self, Built, Doc};
use crate::driver::*;
use crate::hist::*;
use crate::mem::{count, Held};
use crate::sets::*;
use measured::label::LabelGroupSet;
use measured::metric::name::MetricName;
use measured::metric::{MetricFamilyEncoding, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_prometheus_protobuf::ProtoEncoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    /// Use `n` label groups from `from` on.
    Use { from: u32, n: u32, how: How, u: Upd },
    Remove { from: u32, n: u32 },
    /// Use one after another of `n` label groups and remove the one `width` before it.
    Roll { from: u32, n: u32, width: u32, how: How, u: Upd },
    /// Use and remove the same `n` label groups over and over.
    Churn { from: u32, n: u32, reps: u32, how: How, u: Upd },
    InitAll,
    /// Something that creates no label group, `reps` times.
    Idle { what: Idle, k: u32, reps: u32, how: How, u: Upd },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Idle {
    Update,
    Lookup,
    Outside,
    Buffered,
    Streamed,
    Failed(u16),
    RemoveAbsent,
    Cardinality,
    InitAllAgain,
}
type Case = (Spec, Repr, KindTag, Vec<Op>);

struct Run<'a>(Repr, KindTag, &'a [Op], &'a mut Ctx);
impl Visit for Run<'_> {
    type Out = Check;
    fn visit<S: Subject>(self, s: &S) -> Check {
        let Run(repr, kind, ops, ctx) = self;
        // Twice: what a thread keeps for good after its first use of something is not the collection's.
        let go = |ctx: &mut Ctx| match kind {
            KindTag::Counter => collection::<KC, S>(s, repr, ops, ctx),
            KindTag::Gauge => collection::<KG, S>(s, repr, ops, ctx),
            KindTag::Float => collection::<KF, S>(s, repr, ops, ctx),
            KindTag::Histogram => collection::<KH, S>(s, repr, ops, ctx),
            KindTag::Own => collection::<KX, S>(s, repr, ops, ctx),
        };
        go(&mut Ctx::default())?;
        let kept = go(ctx)?;
        if kept.bytes > 0 || kept.blocks > 0 {
            return Err(format!("after the collection was dropped, {kept} remained"));
        }
        Ok(())
    }
}

/// A writer that fails after so many bytes.
struct Fails(usize);
impl io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Runs the history; the result is what the collection left behind when it was dropped.
fn collection<K: Kind, S: Subject>(s: &S, repr: Repr, ops: &[Op], ctx: &mut Ctx) -> Result<Held, String>
where
    K::M: measured::metric::MetricEncoding<TextEncoder<io::Sink>> + measured::metric::MetricEncoding<TextEncoder<Fails>>,
{
    let total = key_count(s).min(20_000) as u32;
    let keys: Vec<_> = (0..total).map(|i| nth(s, i).unwrap()).collect();
    // The set knows all values beforehand; what it learns it may keep.
    let mut set_mem = Held::default();
    let set = count(&mut set_mem, || {
        let set = s.new_set();
        for k in &keys {
            std::hint::black_box(set.encode(s.group(k)).is_some());
        }
        set
    });
    let outsiders: Vec<_> = (0..8).filter_map(|o| s.key(&[o, o / 3, 0], Some(o))).collect();
    for k in &outsiders {
        count(&mut set_mem, || std::hint::black_box(set.encode(s.group(k)).is_some()));
    }
    let known = s.cardinality();
    let mut own = Held::default();
    let mut v: MetricVec<K::M, S::Set> = count(&mut own, || match repr {
        Repr::Default => MetricVec::with_label_set_and_metadata(set, K::metadata()),
        Repr::Dense if known.is_some() => MetricVec::dense_with_label_set_and_metadata(set, K::metadata()),
        _ => MetricVec::sparse_with_label_set_and_metadata(set, K::metadata()),
    });
    let empty = own;
    let state = size_of::<K::M>() as isize;
    let dense = |own: Held| own.blocks <= 8 && known.is_some_and(|c| own.bytes <= c as isize * (4 * state + 512) + 4096);
    // In a sparse one, a shard that had `n` groups at once has room for at most 16/3.5 (n + 1).
    let cpus = std::thread::available_parallelism().map_or(1, usize::from);
    let shards = (cpus * 4).next_power_of_two() as isize * 2;
    let entry = size_of::<(<S::Set as LabelGroupSet>::Unique, K::M)>() as isize + 2;
    let sparse = |own: Held, peak: usize, used: usize| {
        let room = (peak as isize * shards).min(used as isize);
        own.blocks <= 2 * shards + 16 && own.bytes <= 2048 * shards + 5 * entry * (room + 2 * shards) + 64 * shards
    };
    let mut alive = BTreeSet::new();
    let mut used = BTreeSet::new();
    let mut peak = 0;
    let mut removed = 0u64;
    let mut idle = 0u64;
    for (i, op) in ops.iter().enumerate() {
        let at = |m: String| format!("op {i} {op:?}: {m}");
        if keys.is_empty() {
            break;
        }
        macro_rules! key { ($k:expr) => { (($k) as u64 % total as u64) as u32 } }
        macro_rules! use_it { ($k:expr, $how:expr, $u:expr) => {{
            let k = key!($k);
            // it has failed already, so keep the machine alive
            if own.bytes > 1 << 28 {
                return Err(at(format!("the collection holds {own} with {} label groups", alive.len())));
            }
            count(&mut own, || update::<K, S>(s, &mut v, &keys[k as usize], *$how, *$u));
            alive.insert(k);
            used.insert(k);
            peak = peak.max(alive.len());
        }} }
        macro_rules! remove_it { ($k:expr) => {{
            let k = key!($k);
            let gone = count(&mut own, || v.remove_metric(v.with_labels(s.group(&keys[k as usize]))).is_some());
            if gone {
                alive.remove(&k);
                removed += 1;
            }
        }} }
        match op {
            Op::Use { from, n, how, u } => {
                for j in 0..*n {
                    use_it!(*from as u64 + j as u64, how, u)
                }
            }
            Op::Remove { from, n } => (0..*n).for_each(|j| remove_it!(*from as u64 + j as u64)),
            Op::Roll { from, n, width, how, u } => {
                for j in 0..*n {
                    use_it!(*from as u64 + j as u64, how, u);
                    if j >= *width {
                        remove_it!(*from as u64 + (j - width) as u64)
                    }
                }
            }
            Op::Churn { from, n, reps, how, u } => {
                for _ in 0..*reps {
                    for j in 0..*n {
                        use_it!(*from as u64 + j as u64, how, u)
                    }
                    (0..*n).for_each(|j| remove_it!(*from as u64 + j as u64));
                }
            }
            Op::InitAll => {
                count(&mut own, || v.init_all_dense());
                // all of a dense one
                let n = v.get_cardinality().0;
                peak = peak.max(n);
            }
            Op::Idle { what, k, reps, how, u } => {
                let k = key!(*k);
                let mut once = || -> Check {
                    let key = &keys[k as usize];
                    match what {
                        Idle::Update => update::<K, S>(s, &mut v, key, *how, *u),
                        Idle::Lookup => drop(v.get_metric(v.with_labels(s.group(key)))),
                        Idle::Outside => {
                            if !outsiders.is_empty() && v.try_with_labels(s.group(&outsiders[k as usize % outsiders.len()])).is_some() {
                                return Err("an outsider was found".into());
                            }
                        }
                        Idle::Buffered => {
                            let mut e = BufferedTextEncoder::new();
                            v.collect_family_into(MetricName::from_str(NAME), &mut e).unwrap();
                            drop(e.finish());
                        }
                        Idle::Streamed => v.collect_family_into(MetricName::from_str(NAME), &mut TextEncoder::new(io::sink())).unwrap(),
                        Idle::Failed(n) => {
                            let _ = v.collect_family_into(MetricName::from_str(NAME), &mut TextEncoder::new(Fails(*n as usize)));
                        }
                        Idle::RemoveAbsent => drop(v.remove_metric(v.with_labels(s.group(key)))),
                        Idle::Cardinality => {
                            std::hint::black_box(v.get_cardinality());
                        }
                        Idle::InitAllAgain => v.init_all_dense(),
                    }
                    Ok(())
                };
                // the first time may create or remove the label group, or fill the cells
                count(&mut own, &mut once).map_err(at)?;
                let scrape = matches!(what, Idle::Buffered | Idle::Streamed | Idle::Failed(_));
                let mut left = Held::default();
                for _ in 0..if scrape && alive.len() > 50 { (*reps).min(5) } else { *reps } {
                    count(&mut left, &mut once).map_err(at)?;
                    idle += 1;
                }
                own = own + left;
                if left.bytes > 0 || left.blocks > 0 {
                    return Err(at(format!("{left} were left behind")));
                }
                match what {
                    Idle::Update | Idle::Lookup => {
                        alive.insert(k);
                        used.insert(k);
                        peak = peak.max(alive.len());
                    }
                    Idle::RemoveAbsent => {
                        let n = v.get_cardinality().0;
                        if n < alive.len() {
                            alive.remove(&k);
                        }
                    }
                    Idle::InitAllAgain => peak = peak.max(v.get_cardinality().0),
                    _ => {}
                }
            }
        }
        let ok = match repr {
            Repr::Dense if known.is_some() => dense(own),
            Repr::Default if known.is_some_and(|c| c <= 8192) => dense(own) || sparse(own, peak, used.len()),
            _ => sparse(own, peak, used.len()),
        };
        if !ok {
            return Err(at(format!("the collection holds {own} (empty it held {empty}), with {} label groups ({peak} at most) out of {} ever used", alive.len(), used.len())));
        }
    }
    ctx.label(if peak > 1000 { "over 1000 groups alive" } else if peak > 100 { "over 100 groups alive" } else { "at most 100 groups alive" });
    ctx.label_if(removed > 1000, "over 1000 removals");
    ctx.label_if(idle > 100, "over 100 idle operations");
    ctx.nontrivial_if(peak > 1 && (removed > 10 || idle > 10));
    count(&mut own, || drop(v));
    // A static set stays, and the memory of any other went with the collection.
    let kept = own + set_mem;
    Ok(if kept == set_mem { Held::default() } else { kept })
}

fn idle() -> BoxedStrategy<Idle> {
    prop_oneof![
        4 => Just(Idle::Update), 2 => Just(Idle::Lookup), 2 => Just(Idle::Outside), 2 => Just(Idle::Buffered), 2 => Just(Idle::Streamed),
        2 => (0u16..400).prop_map(Idle::Failed), 2 => Just(Idle::RemoveAbsent), 1 => Just(Idle::Cardinality), 1 => Just(Idle::InitAllAgain),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let n = || prop_oneof![3 => 1u32..6, 2 => 1u32..200, 1 => 200u32..4000];
    let reps = || prop_oneof![2 => 1u32..6, 1 => 6u32..300];
    let from = || any::<u16>().prop_map(u32::from);
    prop_oneof![
        4 => (from(), n(), how(), upd()).prop_map(|(from, n, how, u)| Op::Use { from, n, how, u }),
        2 => (from(), n()).prop_map(|(from, n)| Op::Remove { from, n }),
        2 => (from(), 1u32..8000, prop_oneof![3 => 1u32..5, 1 => 1u32..400], how(), upd()).prop_map(|(from, n, width, how, u)| Op::Roll { from, n, width, how, u }),
        2 => (from(), prop_oneof![3 => 1u32..4, 1 => 1u32..40], prop_oneof![1 => 1u32..60, 2 => 60u32..900], how(), upd()).prop_map(|(from, n, reps, how, u)| Op::Churn { from, n, reps, how, u }),
        1 => Just(Op::InitAll),
        6 => (idle(), from(), reps(), how(), upd()).prop_map(|(what, k, reps, how, u)| Op::Idle { what, k, reps, how, u }),
    ]
    .boxed()
}
fn case() -> impl Strategy<Value = Case> {
    let spec = prop_oneof![2 => small_spec(), 3 => large_spec(), 1 => huge_spec()];
    let ops = prop_oneof![3 => prop::collection::vec(op(), 1..7), 1 => prop::collection::vec(op(), 7..20)];
    (spec, repr(), kind(), ops)
}
fn collections((spec, repr, kind, ops): &Case, ctx: &mut Ctx) -> Check {
    ctx.label(&format!("{repr:?}"));
    with(spec, Run(*repr, *kind, ops, ctx))
}

// ---- encoders

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Encoders {
    docs: Vec<Doc>,
    /// which one, how it is exported, and after how many bytes the writer fails
    rounds: Vec<(u8, u8, Option<u16>)>,
    reps: u32,
    proto: u8,
}
/// Counts the bytes and fails after so many.
#[derive(Default)]
struct Meter {
    n: usize,
    limit: Option<usize>,
}
impl io::Write for Meter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let room = self.limit.map_or(usize::MAX, |l| l.saturating_sub(self.n));
        if room == 0 && !b.is_empty() {
            return Err(io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(room);
        self.n += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn encoders(c: &Encoders, ctx: &mut Ctx) -> Check {
    let built: Vec<Vec<Built>> = c.docs.iter().map(docs::build).collect();
    if built.is_empty() || c.rounds.is_empty() {
        return Ok(());
    }
    let doc = |d: u8| &built[d as usize % built.len()];
    let mut largest = 0;
    for d in &built {
        // in text; a protobuf one is smaller, but leaves out what the encoder may yet keep
        let mut e = BufferedTextEncoder::new();
        docs::collect_text(d, &mut e, 0).unwrap();
        largest = largest.max(e.finish().len());
    }
    // `round` exports everything once; the encoder lives through all the rounds
    fn judge(what: &str, reps: u32, largest: usize, mut round: impl FnMut()) -> Check {
        let mut own = Held::default();
        let mut early = Held::default();
        for r in 0..4 + reps {
            count(&mut own, &mut round);
            if r < 4 {
                early.bytes = early.bytes.max(own.bytes);
                early.blocks = early.blocks.max(own.blocks);
            }
            let bound = 8 * largest as isize + 4096;
            if own.bytes > bound.max(1 << 16) || own.blocks > 64 || r >= 4 && (own.bytes > 2 * early.bytes + 1024 || own.blocks > early.blocks + 4) {
                return Err(format!("the {what} encoder holds {own} after round {r} ({early} at most in the first four); the largest document has {largest} bytes"));
            }
        }
        Ok(())
    }
    for fresh in [false, true] {
        // A fresh encoder for every round leaves nothing at all behind.
        let reps = if fresh { 2 } else { c.reps };
        let mut nothing = Held::default();
        let mut body = || match c.proto {
            0 => {
                let mut e = ProtoEncoder::new(Meter::default());
                judge("protobuf", reps, largest, || {
                    for (d, via, limit) in &c.rounds {
                        e.writer = Meter { n: 0, limit: limit.map(usize::from) };
                        let _ = docs::collect_proto(doc(*d), &mut e, *via).and_then(|()| e.flush());
                    }
                })
            }
            1 => {
                let mut e = TextEncoder::new(Meter::default());
                judge("streaming text", reps, largest, || {
                    for (d, via, limit) in &c.rounds {
                        e.writer = Meter { n: 0, limit: limit.map(usize::from) };
                        let _ = docs::collect_text(doc(*d), &mut e, *via).and_then(|()| e.flush());
                    }
                })
            }
            _ => {
                let mut e = BufferedTextEncoder::new();
                judge("buffered text", reps, largest, || {
                    for (d, via, _) in &c.rounds {
                        docs::collect_text(doc(*d), &mut e, *via).unwrap();
                        drop(e.finish());
                    }
                })
            }
        };
        if fresh {
            count(&mut nothing, &mut body)?;
            nothing = Held::default();
            count(&mut nothing, &mut body)?;
            if nothing.bytes > 0 || nothing.blocks > 0 {
                return Err(format!("after the encoder was dropped, {nothing} remained"));
            }
        } else {
            body()?;
        }
    }
    ctx.label(["protobuf", "streaming text", "buffered text"][c.proto as usize]);
    ctx.label_if(largest > 16_384, "a document over 16 kB");
    ctx.label_if(c.rounds.iter().any(|r| r.2.is_some()), "with failures");
    ctx.label_if(c.reps > 50, "over 50 rounds");
    ctx.nontrivial_if(largest > 0 && c.reps > 1);
    Ok(())
}
fn encoders_case() -> impl Strategy<Value = Encoders> {
    (0u8..3)
        .prop_flat_map(|proto| {
            let rounds = (any::<u8>(), 0..docs::VIAS, prop_oneof![3 => Just(None), 1 => (0u16..2000).prop_map(Some)]);
            (prop::collection::vec(docs::doc(proto > 0, 4), 1..4), prop::collection::vec(rounds, 1..5), prop_oneof![3 => 1u32..10, 1 => 10u32..300], Just(proto))
        })
        .prop_map(|(docs, rounds, reps, proto)| Encoders { docs, rounds, reps, proto })
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        level: "exploration",
        rule: "a case is non-trivial when several label groups were alive at once and more than ten removals or idle operations followed, or an encoder exported something more than once",
        arms: vec![
            Arm::new("collections", 3000, 60_000, case, collections),
            Arm::new("encoders", 2500, 50_000, encoders_case, encoders),
        ],
    }
}
