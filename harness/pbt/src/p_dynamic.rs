//! C23: label sets that learn values give each value one stable identity.
use crate::driver::*;
use crate::sets::Three;
use crate::text;
use crate::util::*;
use lasso::{MicroSpur, MiniSpur, Spur, ThreadedRodeo};
use measured::label::{DynamicLabelSet, LabelGroupSet, LabelSet};
use measured::metric::name::MetricName;
use measured::metric::MetricFamilyEncoding;
use measured::text::BufferedTextEncoder;
use measured::LabelGroup;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// A set of the user's own, with identities far from 0 and room for `cap` values.
pub struct Own {
    cap: usize,
    state: Mutex<(HashMap<String, usize>, Vec<&'static str>)>,
}
impl LabelSet for Own {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> {
        None
    }
    fn encode(&self, v: &str) -> Option<usize> {
        let mut s = self.state.lock().unwrap();
        if let Some(i) = s.0.get(v) {
            return Some(usize::MAX - i * 7);
        }
        let i = s.1.len();
        if i >= self.cap {
            return None;
        }
        s.0.insert(v.to_owned(), i);
        s.1.push(Box::leak(v.to_owned().into_boxed_str()));
        Some(usize::MAX - i * 7)
    }
    fn decode(&self, i: usize) -> &str {
        self.state.lock().unwrap().1[(usize::MAX - i) / 7]
    }
}
impl DynamicLabelSet for Own {}

/// How many values the set can take: any number, exactly this many, or not judged. (Memory limits are left
/// out: lasso 0.7.2 writes past its buffer when a value does not fit into what is left.)
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Room {
    Any,
    Exactly(usize),
    Unknown,
}
pub trait Learner: DynamicLabelSet + for<'a> LabelSet<Value<'a> = &'a str> + Send + Sync + 'static {
    fn make(limit: usize) -> (Self, Room) where Self: Sized;
}
macro_rules! rodeo {
    ($k:ty, $room:expr) => {
        impl Learner for ThreadedRodeo<$k> {
            fn make(_: usize) -> (Self, Room) {
                (ThreadedRodeo::new(), $room)
            }
        }
    };
}
rodeo!(Spur, Room::Any);
rodeo!(MiniSpur, Room::Any);
rodeo!(MicroSpur, Room::Exactly(255));
impl Learner for Own {
    fn make(limit: usize) -> (Self, Room) {
        (Own { cap: limit, state: Default::default() }, Room::Exactly(limit))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// straight into the set
    Encode(u16),
    /// resolve a known identity
    Decode(u16),
    /// count in collection 0..5 under these two values
    Inc(u8, u16, u16),
    /// look up without counting
    Look(u8, u16, u16),
    /// encode and decode a whole group
    Group(u8, u16, u16),
    Scrape(u8),
    /// take a collection's metric away
    Remove(u8, u16, u16),
    /// learn n values nobody used before
    Bulk(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    set: u8,
    limit: u16,
    values: Vec<String>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    set: u8,
    limit: u16,
    values: Vec<String>,
    ops: Vec<Vec<Op>>,
    rounds: u8,
}

fn op() -> impl Strategy<Value = Op> {
    let v = || prop_oneof![4 => 0u16..6, 1 => 0u16..64];
    let c = 0u8..5;
    prop_oneof![
        4 => v().prop_map(Op::Encode),
        3 => any::<u16>().prop_map(Op::Decode),
        6 => (c.clone(), v(), v()).prop_map(|(c, a, b)| Op::Inc(c, a, b)),
        3 => (c.clone(), v(), v()).prop_map(|(c, a, b)| Op::Look(c, a, b)),
        3 => (c.clone(), v(), v()).prop_map(|(c, a, b)| Op::Group(c, a, b)),
        2 => c.clone().prop_map(Op::Scrape),
        1 => (c.clone(), v(), v()).prop_map(|(c, a, b)| Op::Remove(c, a, b)),
        1 => prop_oneof![3 => 1u16..20, 1 => 200u16..300].prop_map(Op::Bulk),
    ]
}
fn values() -> impl Strategy<Value = Vec<String>> {
    let close = prop::sample::select(vec!["", "a", "b", "ab", "aa", "A", "a ", " a", "á", "a\u{301}", "\u{e1}", "a\0", "\0", "0", "00", "ß", "ss", "\n", "\\n", "null", "x\u{200b}", "x"]).prop_map(str::to_owned);
    prop::collection::vec(prop_oneof![3 => close, 2 => any_text()], 1..12)
}

/// What is known of one learning set.
struct Known {
    room: Room,
    ids: HashMap<String, usize>,
    names: BTreeMap<usize, String>,
}
impl Known {
    fn new(room: Room) -> Known {
        Known { room, ids: HashMap::new(), names: BTreeMap::new() }
    }
    fn full(&self) -> bool {
        matches!(self.room, Room::Exactly(n) if self.ids.len() >= n)
    }
    fn saw(&mut self, v: &str, id: Option<usize>) -> Check {
        match (self.ids.get(v), id) {
            (Some(old), Some(id)) if *old == id => Ok(()),
            (Some(old), id) => Err(format!("{v:?} was {old} and is now {id:?}")),
            (None, None) if self.full() || self.room == Room::Unknown => Ok(()),
            (None, None) => Err(format!("{v:?} is not contained, with {} values known of {:?}", self.ids.len(), self.room)),
            (None, Some(id)) => {
                if self.full() {
                    return Err(format!("{v:?} became {id} in a full set"));
                }
                if let Some(o) = self.names.insert(id, v.to_owned()) {
                    return Err(format!("{v:?} and {o:?} are both {id}"));
                }
                self.ids.insert(v.to_owned(), id);
                Ok(())
            }
        }
    }
    fn check(&self, s: &(impl Learner + ?Sized)) -> Check {
        for (v, id) in &self.ids {
            if s.decode(*id) != v {
                return Err(format!("identity {id} of {v:?} resolves to {:?}", s.decode(*id)));
            }
            if s.encode(v) != Some(*id) {
                return Err(format!("{v:?} was {id} and is now {:?}", s.encode(v)));
            }
        }
        Ok(())
    }
}
fn scraped(f: &impl MetricFamilyEncoding<BufferedTextEncoder>) -> Result<BTreeMap<Vec<String>, u64>, String> {
    let mut enc = BufferedTextEncoder::new();
    f.collect_family_into(MetricName::from_str("m"), &mut enc).unwrap();
    let doc = enc.finish();
    let mut out = BTreeMap::new();
    for fam in text::parse(&doc, true)? {
        for s in fam.samples {
            let l: Vec<String> = s.labels.into_iter().map(|l| l.1).collect();
            let n = s.value.parse().map_err(|_| format!("value {:?}", s.value))?;
            if out.insert(l.clone(), n).is_some() {
                return Err(format!("{l:?} is exported twice"));
            }
        }
    }
    Ok(out)
}
const KIND: [Three; 3] = [Three::User, Three::Internal, Three::Network];
const KIND_TEXT: [&str; 3] = ["user", "internal", "network"];

macro_rules! family {
    ($m:ident, $x:ty) => {
        mod $m {
            use super::*;
            #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
            #[label(set = OneSet)]
            pub struct One<'a> {
                kind: Three,
                #[label(dynamic_with = Arc<$x>)]
                user: &'a str,
            }
            #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
            #[label(set = TwoSet)]
            pub struct Two<'a> {
                #[label(dynamic_with = Arc<$x>)]
                a: &'a str,
                kind: Three,
                #[label(dynamic_with = Arc<$x>)]
                b: &'a str,
            }
            struct World {
                shared: Arc<$x>,
                alone: Arc<$x>,
                room: Room,
                one: [measured::CounterVec<OneSet>; 3],
                two: [measured::CounterVec<TwoSet>; 2],
            }
            fn world(limit: usize) -> World {
                let (a, room) = <$x as Learner>::make(limit);
                let (b, _) = <$x as Learner>::make(limit);
                let (shared, alone) = (Arc::new(a), Arc::new(b));
                let one = |s: &Arc<$x>| measured::CounterVec::with_label_set(OneSet::new(s.clone()));
                World {
                    one: [one(&shared), one(&shared), one(&alone)],
                    two: [measured::CounterVec::with_label_set(TwoSet::new(shared.clone(), shared.clone())), measured::CounterVec::with_label_set(TwoSet::new(shared.clone(), alone.clone()))],
                    shared, alone, room,
                }
            }
            /// $use!(collection, group) on whichever collection is meant
            macro_rules! on {
                ($w:expr, $c:expr, $a:expr, $k:expr, $b:expr, |$v:ident, $g:ident| $body:expr) => {
                    if $c < 3 { let $v = &$w.one[$c]; let $g = One { kind: $k, user: $a }; $body } else { let $v = &$w.two[$c - 3]; let $g = Two { a: $a, kind: $k, b: $b }; $body }
                };
            }
            fn labels(c: usize, a: &str, k: usize, b: &str) -> Vec<String> {
                if c < 3 { vec![KIND_TEXT[k].into(), a.into()] } else { vec![a.into(), KIND_TEXT[k].into(), b.into()] }
            }
            /// the sets the values of a group of collection c go to: (a's, b's)
            fn where_to(c: usize) -> (usize, Option<usize>) {
                match c { 0 | 1 => (0, None), 2 => (1, None), 3 => (0, Some(0)), _ => (0, Some(1)) }
            }

            pub fn model(case: &Case, ctx: &mut Ctx) -> Check {
                let w = world(case.limit as usize);
                let sets = [&*w.shared, &*w.alone];
                let mut known = [Known::new(w.room), Known::new(w.room)];
                let mut counts: [BTreeMap<Vec<String>, u64>; 5] = Default::default();
                let mut fresh = 0;
                let (mut refused, mut met) = (0, HashSet::new());
                let mut one_ids = HashMap::new();
                let mut two_ids = HashMap::new();
                let val = |i: u16| &*case.values[i as usize % case.values.len()];
                // after an attempt with these values: learn what became of them
                let group = |known: &mut [Known; 2], c: usize, a: &str, b: &str, ok: bool| -> Check {
                    let (sa, sb) = where_to(c);
                    let mut new: HashSet<(usize, &str)> = HashSet::new();
                    new.insert((sa, a));
                    if let Some(sb) = sb { new.insert((sb, b)); }
                    new.retain(|(s, v)| !known[*s].ids.contains_key(*v));
                    if !ok {
                        let fits = (0..2).all(|s| match w.room { Room::Any => true, Room::Unknown => !new.iter().any(|n| n.0 == s), Room::Exactly(n) => known[s].ids.len() + new.iter().filter(|n| n.0 == s).count() <= n });
                        if fits { return Err(format!("the group of {a:?} and {b:?} is not contained in collection {c}, though there is room")) }
                    }
                    let found: Vec<_> = new.iter().map(|(s, v)| (*s, *v, sets[*s].encode(v))).collect();
                    for (s, v, id) in found.iter().filter(|f| f.2.is_some()).chain(found.iter().filter(|f| f.2.is_none())) { known[*s].saw(v, *id)? }
                    let all = new.iter().all(|(s, v)| known[*s].ids.contains_key(*v));
                    if ok && !all { return Err(format!("the group of {a:?} and {b:?} was accepted by collection {c}, but its values are not contained")) }
                    Ok(())
                };
                for (i, o) in case.ops.iter().enumerate() {
                    let r = (|| -> Check {
                        match *o {
                            Op::Encode(v) => {
                                let s = v as usize % 2;
                                let id = sets[s].encode(val(v / 2));
                                refused += id.is_none() as u32;
                                met.insert((s, val(v / 2), 9));
                                known[s].saw(val(v / 2), id)
                            }
                            Op::Decode(n) => {
                                let s = n as usize % 2;
                                if let Some((v, id)) = known[s].ids.iter().nth(n as usize / 2 % known[s].ids.len().max(1)) {
                                    if sets[s].decode(*id) != v { return Err(format!("identity {id} of {v:?} resolves to {:?}", sets[s].decode(*id))) }
                                }
                                Ok(())
                            }
                            Op::Inc(c, a, b) | Op::Look(c, a, b) | Op::Remove(c, a, b) => {
                                let (c, k) = (c as usize % 5, b as usize % 3);
                                let (a, b) = (val(a), if c < 3 { "" } else { val(b) });
                                let ok = on!(w, c, a, KIND[k], b, |v, g| v.try_with_labels(g).is_some());
                                refused += !ok as u32;
                                met.insert((where_to(c).0, a, c));
                                group(&mut known, c, a, b, ok)?;
                                let l = labels(c, a, k, b);
                                if ok {
                                    // one identifier per label group
                                    if c < 3 {
                                        let id = w.one[c].with_labels(One { kind: KIND[k], user: a });
                                        if *one_ids.entry((c, l.clone())).or_insert(id) != id { return Err(format!("{l:?} has another identifier now")) }
                                        if one_ids.iter().any(|((d, m), o)| *d == c && *m != l && *o == id) { return Err(format!("{l:?} shares its identifier")) }
                                    } else {
                                        let id = w.two[c - 3].with_labels(Two { a, kind: KIND[k], b });
                                        if *two_ids.entry((c, l.clone())).or_insert(id) != id { return Err(format!("{l:?} has another identifier now")) }
                                        if two_ids.iter().any(|((d, m), o)| *d == c && *m != l && *o == id) { return Err(format!("{l:?} shares its identifier")) }
                                    }
                                }
                                match o {
                                    Op::Inc(..) if ok => {
                                        on!(w, c, a, KIND[k], b, |v, g| v.inc(g));
                                        *counts[c].entry(l).or_default() += 1;
                                    }
                                    Op::Inc(..) => {
                                        if catch(|| on!(w, c, a, KIND[k], b, |v, g| v.inc(g))).is_ok() { return Err(format!("{l:?} is not contained, but was counted")) }
                                    }
                                    Op::Remove(..) if ok => {
                                        let got = on!(w, c, a, KIND[k], b, |v, g| v.remove_metric(v.with_labels(g))).map(|m| m.count.into_inner());
                                        let want = counts[c].remove(&l);
                                        if got != want { return Err(format!("removing {l:?} gave {got:?}, not {want:?}")) }
                                    }
                                    _ => {}
                                }
                                Ok(())
                            }
                            Op::Group(c, a, b) => {
                                let (c, k) = (c as usize % 5, b as usize % 3);
                                let (a, b) = (val(a), if c < 3 { "" } else { val(b) });
                                let ok = on!(w, c, a, KIND[k], b, |v, g| {
                                    let s = v.get_label_set();
                                    if s.cardinality().is_some() { return Err("a cardinality for a learning set".into()) }
                                    match s.encode(g) {
                                        Some(u) => {
                                            if s.encode_dense(u).is_some() { return Err("a dense index for a learning set".into()) }
                                            if s.decode(&u) != g { return Err(format!("{g:?} comes back as {:?}", s.decode(&u))) }
                                            if s.encode(g) != Some(u) { return Err(format!("{g:?} encodes differently the second time")) }
                                            true
                                        }
                                        None => false,
                                    }
                                });
                                refused += !ok as u32;
                                met.insert((where_to(c).0, a, c));
                                group(&mut known, c, a, b, ok)
                            }
                            Op::Scrape(c) => {
                                let c = c as usize % 5;
                                let got = if c < 3 { scraped(&w.one[c]) } else { scraped(&w.two[c - 3]) }?;
                                if got != counts[c] { return Err(format!("collection {c} exports {got:?}, not {:?}", counts[c])) }
                                Ok(())
                            }
                            Op::Bulk(n) => {
                                for _ in 0..n {
                                    fresh += 1;
                                    let v = format!("bulk-{fresh}");
                                    let id = w.shared.encode(&v);
                                    refused += id.is_none() as u32;
                                    known[0].saw(&v, id)?;
                                }
                                Ok(())
                            }
                        }
                    })();
                    r.map_err(|e| format!("op {i} {o:?}: {e}"))?;
                }
                for (k, s) in known.iter().zip(sets) { k.check(s)? }
                for c in 0..5 {
                    let got = if c < 3 { scraped(&w.one[c]) } else { scraped(&w.two[c - 3]) }?;
                    if got != counts[c] { return Err(format!("in the end, collection {c} exports {got:?}, not {:?}", counts[c])) }
                }
                ctx.label_if(refused > 0, "values refused for want of room");
                ctx.label(stringify!($m));
                // a value met through more than one door
                let through = met.iter().filter(|(s, v, d)| met.iter().any(|(t, u, e)| s == t && u == v && d != e)).count();
                ctx.label_if(through > 0, "a value met through several collections");
                ctx.nontrivial_if(through > 0 && known[0].ids.len() > 1);
                Ok(())
            }

            pub fn threads(case: &Threads, ctx: &mut Ctx) -> Check {
                let val = |i: u16| &*case.values[i as usize % case.values.len()];
                for round in 0..case.rounds {
                    let w = world(case.limit as usize);
                    let w = &w;
                    let n = case.ops.len();
                    let go = AtomicUsize::new(0);
                    // (set, value, identity) in the order a thread saw them; increments; accepted groups
                    type Out = (Vec<(usize, String, Option<usize>)>, [BTreeMap<Vec<String>, u64>; 5], Check);
                    let outs: Vec<Out> = std::thread::scope(|s| {
                        let hs: Vec<_> = case.ops.iter().enumerate().map(|(t, ops)| {
                            let go = &go;
                            s.spawn(move || {
                                let sets = [&*w.shared, &*w.alone];
                                let mut seen = vec![];
                                let mut counts: [BTreeMap<Vec<String>, u64>; 5] = Default::default();
                                let mut mine: Vec<(usize, String, usize)> = vec![];
                                go.fetch_add(1, Ordering::SeqCst);
                                let mut spins = 0;
                                while go.load(Ordering::SeqCst) < n { spins += 1; if spins > 1000 { std::thread::yield_now() } else { std::hint::spin_loop() } }
                                let mut run = || -> Check {
                                    for o in ops {
                                        match *o {
                                            Op::Encode(v) => {
                                                let s = v as usize % 2;
                                                let id = sets[s].encode(val(v / 2));
                                                if let Some(id) = id {
                                                    if sets[s].decode(id) != val(v / 2) { return Err(format!("{:?} became {id}, which resolves to {:?}", val(v / 2), sets[s].decode(id))) }
                                                    mine.push((s, val(v / 2).to_owned(), id));
                                                }
                                                seen.push((s, val(v / 2).to_owned(), id));
                                            }
                                            Op::Bulk(m) => for i in 0..m {
                                                // every other one also wanted by other threads
                                                let v = if i % 2 == 0 { format!("bulk-{i}") } else { format!("bulk-{i}-{t}") };
                                                let id = sets[0].encode(&v);
                                                if let Some(id) = id { mine.push((0, v.clone(), id)) }
                                                seen.push((0, v, id));
                                            },
                                            Op::Decode(i) => if !mine.is_empty() {
                                                let (s, v, id) = &mine[i as usize % mine.len()];
                                                if sets[*s].decode(*id) != v { return Err(format!("identity {id} of {v:?} resolves to {:?}", sets[*s].decode(*id))) }
                                            },
                                            Op::Inc(c, a, b) | Op::Look(c, a, b) | Op::Remove(c, a, b) => {
                                                let (c, k) = (c as usize % 5, b as usize % 3);
                                                let (a, b) = (val(a), if c < 3 { "" } else { val(b) });
                                                let ok = on!(w, c, a, KIND[k], b, |v, g| match v.try_with_labels(g) {
                                                    Some(id) => {
                                                        if v.try_with_labels(g) != Some(id) { return Err(format!("{g:?} has another identifier the second time")) }
                                                        if matches!(o, Op::Inc(..)) { v.get_metric(id).inc() }
                                                        true
                                                    }
                                                    None => false,
                                                });
                                                if ok && matches!(o, Op::Inc(..)) { *counts[c].entry(labels(c, a, k, b)).or_default() += 1 }
                                                if !ok && w.room == Room::Any { return Err(format!("{a:?} {b:?} are not contained")) }
                                                if ok {
                                                    let (sa, sb) = where_to(c);
                                                    seen.push((sa, a.to_owned(), sets[sa].encode(a)));
                                                    if let Some(sb) = sb { seen.push((sb, b.to_owned(), sets[sb].encode(b))) }
                                                    if seen.iter().rev().take(1 + sb.is_some() as usize).any(|s| s.2.is_none()) { return Err(format!("{a:?} {b:?} were accepted, but are not contained")) }
                                                }
                                            }
                                            Op::Group(c, a, b) => {
                                                let (c, k) = (c as usize % 5, b as usize % 3);
                                                let (a, b) = (val(a), if c < 3 { "" } else { val(b) });
                                                on!(w, c, a, KIND[k], b, |v, g| {
                                                    let s = v.get_label_set();
                                                    if let Some(u) = s.encode(g) {
                                                        if s.decode(&u) != g { return Err(format!("{g:?} comes back as {:?}", s.decode(&u))) }
                                                        if s.encode(g) != Some(u) { return Err(format!("{g:?} encodes differently the second time")) }
                                                    }
                                                });
                                            }
                                            Op::Scrape(c) => {
                                                let c = c as usize % 5;
                                                let got = if c < 3 { scraped(&w.one[c]) } else { scraped(&w.two[c - 3]) }?;
                                                for (l, n) in &counts[c] {
                                                    if got.get(l).is_none_or(|g| g < n) { return Err(format!("{l:?} was counted {n} times by this thread but is exported as {:?}", got.get(l))) }
                                                }
                                            }
                                        }
                                    }
                                    Ok(())
                                };
                                let r = catch(&mut run).unwrap_or_else(|p| Err(format!("panicked: {p}")));
                                (seen, counts, r)
                            })
                        }).collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect()
                    });
                    let mut known = [Known::new(Room::Unknown), Known::new(Room::Unknown)];
                    let mut counts: [BTreeMap<Vec<String>, u64>; 5] = Default::default();
                    for (t, (seen, c, r)) in outs.iter().enumerate() {
                        r.clone().map_err(|e| format!("round {round} thread {t}: {e}"))?;
                        for (s, v, id) in seen {
                            if id.is_none() && w.room == Room::Any { return Err(format!("round {round} thread {t}: {v:?} is not contained")) }
                            if id.is_some() { known[*s].saw(v, *id).map_err(|e| format!("round {round} thread {t}: {e}"))? }
                        }
                        // once known, a thread never loses a value again
                        let mut mine = HashSet::new();
                        for (s, v, id) in seen {
                            if id.is_some() { mine.insert((s, v)); } else if mine.contains(&(s, v)) { return Err(format!("round {round} thread {t}: {v:?} is no longer contained")) }
                        }
                        for i in 0..5 { for (l, n) in &c[i] { *counts[i].entry(l.clone()).or_default() += n } }
                    }
                    for (k, s) in known.iter().zip([&*w.shared, &*w.alone]) {
                        k.check(s).map_err(|e| format!("round {round}, afterwards: {e}"))?;
                        if let Room::Exactly(n) = w.room {
                            if k.ids.len() > n { return Err(format!("round {round}: {} values in a set for {n}", k.ids.len())) }
                        }
                    }
                    for c in 0..5 {
                        let mut got = if c < 3 { scraped(&w.one[c]) } else { scraped(&w.two[c - 3]) }?;
                        got.retain(|_, n| *n > 0);
                        if got != counts[c] { return Err(format!("round {round}: collection {c} exports {got:?}, not {:?}", counts[c])) }
                    }
                }
                let fresh: HashSet<String> = case.ops.iter().flatten().map(|o| match o { Op::Encode(v) => format!("{}", v / 2 % case.values.len() as u16), Op::Bulk(_) => "bulk".into(), Op::Inc(_, a, _) | Op::Look(_, a, _) | Op::Group(_, a, _) => format!("{}", *a as usize % case.values.len()), _ => String::new() }).collect();
                ctx.label(stringify!($m));
                ctx.label_if(case.ops.iter().filter(|o| o.iter().any(|o| matches!(o, Op::Bulk(n) if *n >= 200))).count() > 0, "many new values");
                ctx.nontrivial_if(case.ops.len() > 1 && fresh.len() > 1);
                Ok(())
            }
        }
    };
}
family!(spur, ThreadedRodeo<Spur>);
family!(mini, ThreadedRodeo<MiniSpur>);
family!(micro, ThreadedRodeo<MicroSpur>);
family!(own, Own);

fn model(c: &Case, ctx: &mut Ctx) -> Check {
    match c.set % 4 { 0 => spur::model(c, ctx), 1 => mini::model(c, ctx), 2 => micro::model(c, ctx), _ => own::model(c, ctx) }
}
fn threads(c: &Threads, ctx: &mut Ctx) -> Check {
    match c.set % 4 { 0 => spur::threads(c, ctx), 1 => mini::threads(c, ctx), 2 => micro::threads(c, ctx), _ => own::threads(c, ctx) }
}

pub fn c23() -> Property {
    let case = || (0u8..4, prop_oneof![0u16..6, 0u16..40], values(), prop::collection::vec(op(), 1..60)).prop_map(|(set, limit, values, ops)| Case { set, limit, values, ops });
    let par = || (0u8..4, prop_oneof![0u16..6, 0u16..40], values(), prop::collection::vec(prop::collection::vec(op(), 1..12), 2..6)).prop_map(|(set, limit, values, ops)| Threads { set, limit, values, ops, rounds: 12 });
    Property {
        id: "C23",
        level: "exploration",
        rule: "model: a value is met through two different collections or directly, with other values known; threads: at least two threads and two values",
        arms: vec![Arm::new("model", 40_000, 800_000, case, model), Arm::serial("threads", 2_000, 40_000, par, threads)],
    }
}
