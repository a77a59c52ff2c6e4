//! C04: label encoding is a bijection that rejects outsiders.
use crate::driver::*;
use crate::hist::{build, key_count, nth, Repr, KC};
use crate::sets::*;
use indexmap::IndexSet;
use lasso::{Rodeo, ThreadedRodeo};
use measured::label::{ComposedGroup, FixedCardinalitySet, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelTestVisitor, LabelValue};
use measured::LabelGroup;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub struct Collect(pub Labels);
impl LabelGroupVisitor for Collect {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        self.0.push((name.as_str().to_owned(), x.visit(LabelTestVisitor)))
    }
}
pub fn labels_of(g: impl LabelGroup) -> Labels {
    let mut c = Collect(vec![]);
    g.visit_values(&mut c);
    c.0
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    /// where and in which steps the keys are visited
    start: u32,
    step: u32,
    outside: Vec<(u32, u32)>,
}
struct Run<'a>(&'a Case, &'a mut Ctx);
impl Visit for Run<'_> {
    type Out = Check;
    fn visit<S: Subject>(self, s: &S) -> Check {
        bijection(s, self.0, self.1)
    }
}

fn bijection<S: Subject>(s: &S, c: &Case, ctx: &mut Ctx) -> Check {
    let set = s.new_set();
    let card = s.cardinality();
    if set.cardinality() != card {
        return Err(format!("cardinality {:?}, expected {card:?}", set.cardinality()));
    }
    let total = key_count(s);
    let visit = total.min(5000);
    let all = visit == total;
    // a step coprime to the number of keys visits each of them once
    let mut step = (c.step as u64 % total.max(1)).max(1);
    while gcd(step, total.max(1)) != 1 {
        step += 1;
    }
    let mut codes = HashMap::new();
    let mut dense = HashSet::new();
    for j in 0..visit {
        let i = ((c.start as u64 + j * step) % total) as u32;
        let k = nth(s, i).unwrap();
        let want = s.labels(&k);
        let Some(u) = set.encode(s.group(&k)) else { return Err(format!("{want:?} is in the set but does not encode")) };
        let back = labels_of(set.decode(&u));
        if back != want {
            return Err(format!("{want:?} decodes to {back:?}"));
        }
        if let Some(other) = codes.insert(u, i) {
            return Err(format!("{want:?} has the same code as {:?}", s.labels(&nth(s, other).unwrap())));
        }
        if set.encode(s.group(&k)) != Some(u) {
            return Err(format!("{want:?} has a second code"));
        }
        match (card, set.encode_dense(u)) {
            (Some(n), Some(d)) => {
                if d >= n || !dense.insert(d) {
                    return Err(format!("{want:?} has dense code {d} of {n}, taken or out of range"));
                }
                let back = labels_of(set.decode_dense(d));
                if back != want {
                    return Err(format!("{want:?} has dense code {d} which decodes to {back:?}"));
                }
            }
            (Some(_), None) => return Err(format!("{want:?} has no dense code")),
            (None, _) => {}
        }
    }
    if let (true, Some(n)) = (all, card) {
        if dense.len() != n {
            return Err(format!("{} dense codes for {n} label groups", dense.len()));
        }
        let mut seen = HashSet::new();
        for d in 0..n {
            if !seen.insert(labels_of(set.decode_dense(d))) {
                return Err(format!("dense code {d} decodes to a label group of another code"));
            }
        }
    }
    // Codes stay what they were after the others were added.
    for (u, i) in codes.iter().take(200) {
        let k = nth(s, *i).unwrap();
        if labels_of(set.decode(u)) != s.labels(&k) {
            return Err(format!("the code of {:?} changed its meaning", s.labels(&k)));
        }
    }
    let v = build::<KC, S>(s, Repr::Default, false);
    let mut outsiders = 0;
    for (raw, o) in &c.outside {
        let Some(k) = s.key(&[*raw, raw / 5, raw / 11, raw / 2], Some(*o)) else { continue };
        outsiders += 1;
        if let Some(u) = set.encode(s.group(&k)) {
            return Err(format!("{:?} is outside of the set but encodes to {:?}", s.labels(&k), labels_of(set.decode(&u))));
        }
        if v.try_with_labels(s.group(&k)).is_some() {
            return Err(format!("{:?} is outside of the set but a lookup finds it", s.labels(&k)));
        }
        if catch(|| v.with_labels(s.group(&k))).is_ok() {
            return Err(format!("with_labels accepts {:?} from outside of the set", s.labels(&k)));
        }
    }
    if v.get_cardinality().0 != 0 {
        return Err("looking up label groups outside of the set created a metric".into());
    }
    ctx.label(&format!("shape {:?}", c.spec.shape));
    ctx.label_if(outsiders > 0, "outsiders tried");
    ctx.label_if(all, "all label groups visited");
    ctx.nontrivial_if(visit >= 2);
    Ok(())
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn groups(c: &Case, ctx: &mut Ctx) -> Check {
    with(&c.spec, Run(c, ctx))
}

// ---- single label sets
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Parts {
    inside: Vec<String>,
    outside: Vec<String>,
}
fn string_set<L: for<'a> LabelSet<Value<'a> = &'a str>>(what: &str, set: &L, fixed: Option<usize>, c: &Parts) -> Check {
    if set.dynamic_cardinality() != fixed {
        return Err(format!("{what}: dynamic_cardinality {:?}, expected {fixed:?}", set.dynamic_cardinality()));
    }
    let mut codes = HashMap::new();
    for round in 0..2 {
        for s in &c.inside {
            let Some(u) = set.encode(s) else { return Err(format!("{what}: {s:?} not found")) };
            if fixed.is_some_and(|n| u >= n) {
                return Err(format!("{what}: {s:?} has code {u} of {fixed:?}"));
            }
            if set.decode(u) != s.as_str() || set.decode(u).visit(LabelTestVisitor) != *s {
                return Err(format!("{what}: {s:?} decodes to {:?}", set.decode(u)));
            }
            if codes.insert(u, s.clone()).is_some_and(|o| o != *s) || (round == 1 && codes.len() != c.inside.len()) {
                return Err(format!("{what}: {s:?} shares a code or has two"));
            }
        }
        if fixed.is_some() {
            for s in &c.outside {
                if !c.inside.contains(s) && set.encode(s).is_some() {
                    return Err(format!("{what}: {s:?} is outside but encodes"));
                }
            }
        }
    }
    Ok(())
}
fn parts(c: &Parts, ctx: &mut Ctx) -> Check {
    let mut c = c.clone();
    let mut seen = HashSet::new();
    c.inside.retain(|s| seen.insert(s.clone()));
    let n = c.inside.len();
    let reader = Rodeo::<lasso::Spur>::from_iter(c.inside.iter().map(|s| s.as_str())).into_reader();
    string_set("RodeoReader", &reader, Some(n), &c)?;
    if FixedCardinalitySet::cardinality(&reader) != n {
        return Err("RodeoReader: wrong cardinality".into());
    }
    string_set("Arc<RodeoReader>", &Arc::new(Rodeo::<lasso::Spur>::from_iter(c.inside.iter().map(|s| s.as_str())).into_reader()), Some(n), &c)?;
    string_set("ThreadedRodeo", &ThreadedRodeo::<lasso::Spur>::new(), None, &c)?;
    string_set("Arc<ThreadedRodeo>", &Arc::new(ThreadedRodeo::<lasso::Spur>::new()), None, &c)?;
    // keys of other sizes
    string_set("RodeoReader<LargeSpur>", &Rodeo::<lasso::LargeSpur>::from_iter(c.inside.iter().map(|s| s.as_str())).into_reader(), Some(n), &c)?;
    string_set("RodeoReader<MicroSpur>", &Rodeo::<lasso::MicroSpur>::from_iter(c.inside.iter().map(|s| s.as_str())).into_reader(), Some(n), &c)?;
    string_set("ThreadedRodeo<MiniSpur>", &ThreadedRodeo::<lasso::MiniSpur>::new(), None, &c)?;
    string_set("ThreadedRodeo<LargeSpur>", &ThreadedRodeo::<lasso::LargeSpur>::new(), None, &c)?;
    // a set made at compile time: the generated strings are outsiders, or among its own
    let fixed = |xs: &[&str]| Parts { inside: xs.iter().map(|x| x.to_string()).collect(), outside: c.inside.iter().chain(&c.outside).cloned().collect() };
    let own = fixed(&["loop", "a", "", "b", "aa", "B"]);
    let phf = phf::phf_ordered_set! { "loop", "a", "", "b", "aa", "B" };
    string_set("phf::OrderedSet", &phf, Some(6), &own)?;
    let aphf = Arc::new(phf::phf_ordered_set! { "ab" });
    string_set("Arc<phf::OrderedSet>", &aphf, Some(1), &fixed(&["ab"]))?;
    if FixedCardinalitySet::cardinality(&phf) != 6 || FixedCardinalitySet::cardinality(&aphf) != 1 {
        return Err("phf::OrderedSet: wrong cardinality".into());
    }
    // any value may be in an index set, not only text, and with any hasher
    let ints: Vec<i64> = c.inside.iter().map(|s| s.bytes().fold(-(s.len() as i64), |a, b| a.wrapping_mul(31).wrapping_add(b as i64))).collect();
    let ix: IndexSet<IntL, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = ints.iter().map(|x| IntL(*x)).collect();
    let distinct = ints.iter().collect::<HashSet<_>>().len();
    if FixedCardinalitySet::cardinality(&ix) != distinct || LabelSet::dynamic_cardinality(&ix) != Some(distinct) {
        return Err("IndexSet of integers: wrong cardinality".into());
    }
    for x in &ints {
        let Some(u) = ix.encode(IntL(*x)).filter(|u| *u < distinct) else { return Err(format!("IndexSet of integers: {x} not found")) };
        if ix.decode(u) != IntL(*x) {
            return Err(format!("IndexSet of integers: {x} decodes to {:?}", ix.decode(u)));
        }
    }
    if (0..5).any(|x| ix.encode(IntL(i64::MIN + x)).is_some()) && !ints.iter().any(|x| *x < i64::MIN + 5) {
        return Err("IndexSet of integers: an outsider encodes".into());
    }
    let is: IndexSet<String> = c.inside.iter().cloned().collect();
    let ai = Arc::new(is.clone());
    if FixedCardinalitySet::cardinality(&is) != n || FixedCardinalitySet::cardinality(&ai) != n || LabelSet::dynamic_cardinality(&ai) != Some(n) {
        return Err("IndexSet: wrong cardinality".into());
    }
    for (i, s) in c.inside.iter().enumerate() {
        if is.encode(s.clone()) != Some(i) || is.decode(i) != *s || is.decode(i).visit(LabelTestVisitor) != *s || ai.encode(s.clone()) != Some(i) || ai.decode(i) != *s {
            return Err(format!("IndexSet: {s:?} does not map to {i} and back"));
        }
    }
    for s in &c.outside {
        if !c.inside.contains(s) && (LabelSet::encode(&is, s.clone()).is_some() || ai.encode(s.clone()).is_some()) {
            return Err(format!("IndexSet: {s:?} is outside but encodes"));
        }
    }
    ctx.nontrivial_if(n >= 2);
    Ok(())
}

// ---- user-defined sets of any cardinality
pub struct BigPart(pub usize);
impl LabelSet for BigPart {
    type Value<'a> = IntL;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.0)
    }
    fn encode(&self, v: IntL) -> Option<usize> {
        usize::try_from(v.0).ok().filter(|x| *x < self.0)
    }
    fn decode(&self, value: usize) -> IntL {
        assert!(value < self.0, "decoding {value} of {}", self.0);
        IntL(value as i64)
    }
}
impl FixedCardinalitySet for BigPart {}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = BigSet)]
struct Big {
    #[label(fixed_with = BigPart)]
    a: IntL,
    kind: Three,
    #[label(fixed_with = BigPart)]
    b: IntL,
    #[label(fixed_with = BigPart)]
    c: IntL,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = SmallBigSet)]
struct SmallBig {
    #[label(fixed_with = BigPart)]
    d: IntL,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
    card: [usize; 4],
    /// fractions of each range, plus the enum
    vals: Vec<([u32; 4], u8)>,
}
pub const OVERFLOW: &str = "derived label set whose fixed cardinalities multiply beyond usize: encode overflows";
fn pick(card: usize, f: u32) -> i64 {
    // the ends, or anywhere between
    match f % 4 {
        0 => (f as usize / 4 % card) as i64,
        1 => (card - 1 - (f as usize / 4) % card.min(3)) as i64,
        _ => ((card as u128 * f as u128) >> 32) as i64,
    }
}
fn big(c: &BigCase, ctx: &mut Ctx) -> Check {
    let [a, b, cc, d] = c.card;
    let inner = [a, 3, b, cc].iter().try_fold(1usize, |x, y| x.checked_mul(*y));
    let outer = inner.and_then(|x| x.checked_mul(d));
    let mk = || BigSet::new(BigPart(a), BigPart(b), BigPart(cc));
    let set = ComposedGroup(mk(), SmallBigSet::new(BigPart(d)));
    let rev = ComposedGroup(SmallBigSet::new(BigPart(d)), mk());
    for (what, got, want) in [("derived", set.0.cardinality(), inner), ("composed", set.cardinality(), outer), ("composed reversed", rev.cardinality(), outer)] {
        if got != want {
            return Err(format!("{what} cardinality {got:?}, expected {want:?}"));
        }
    }
    let keys: Vec<(i64, usize, i64, i64, i64)> = {
        let mut v: Vec<_> = c.vals.iter().map(|(f, k)| (pick(a, f[0]), *k as usize % 3, pick(b, f[1]), pick(cc, f[2]), pick(d, f[3]))).collect();
        v.sort();
        v.dedup();
        v
    };
    let mut codes = HashMap::new();
    let mut dense = HashMap::new();
    let mut dense_r = HashMap::new();
    let mut inner_dense = HashMap::new();
    for k in &keys {
        let g = Big { a: IntL(k.0), kind: Three::ALL[k.1], b: IntL(k.2), c: IntL(k.3) };
        let h = SmallBig { d: IntL(k.4) };
        let enc = match (inner, catch(|| set.encode(ComposedGroup(g, h)))) {
            // The finding: only when the derived set's own product does not fit, and only by overflow.
            (None, Err(p)) if p.contains("overflow") => {
                ctx.known(OVERFLOW.into());
                continue;
            }
            (_, Err(p)) => return Err(format!("encoding {k:?} panicked: {p}")),
            (_, Ok(e)) => e,
        };
        let Some(u) = enc else { return Err(format!("{k:?} is in the set but does not encode")) };
        if set.decode(&u) != ComposedGroup(g, h) {
            return Err(format!("{k:?} decodes to {:?}", set.decode(&u)));
        }
        if codes.insert(u, *k).is_some() {
            return Err(format!("{k:?} shares its code"));
        }
        if let Some(n) = inner {
            let e = set.0.encode_dense(u.0).filter(|x| *x < n).ok_or_else(|| format!("{k:?}: no dense code in range"))?;
            if set.0.decode_dense(e) != g || inner_dense.insert(e, (k.0, k.1, k.2, k.3)).is_some_and(|o| o != (k.0, k.1, k.2, k.3)) {
                return Err(format!("{k:?}: dense code {e} is not its own"));
            }
        }
        if let Some(n) = outer {
            let e = set.encode_dense(u).filter(|x| *x < n).ok_or_else(|| format!("{k:?}: no dense code in range"))?;
            if set.decode_dense(e) != ComposedGroup(g, h) || dense.insert(e, *k).is_some() {
                return Err(format!("{k:?}: dense code {e} is not its own"));
            }
            let ur = rev.encode(ComposedGroup(h, g)).ok_or("reversed composition does not encode")?;
            let e = rev.encode_dense(ur).filter(|x| *x < n).ok_or_else(|| format!("{k:?}: no dense code in range"))?;
            if rev.decode_dense(e) != ComposedGroup(h, g) || rev.decode(&ur) != ComposedGroup(h, g) || dense_r.insert(e, *k).is_some() {
                return Err(format!("{k:?}: reversed dense code {e} is not its own"));
            }
        }
        // one part outside
        for (g, h) in [
            (Big { a: IntL(a as i64), ..g }, h), (Big { b: IntL(-1), ..g }, h), (Big { c: IntL(cc as i64), ..g }, h), (g, SmallBig { d: IntL(d as i64) }),
        ] {
            match (inner, catch(|| set.encode(ComposedGroup(g, h)))) {
                (None, Err(p)) if p.contains("overflow") => ctx.known(OVERFLOW.into()),
                (_, Err(p)) => return Err(format!("encoding the outsider {g:?} {h:?} panicked: {p}")),
                (_, Ok(Some(_))) => return Err(format!("{g:?} {h:?} is outside of the set but encodes")),
                (_, Ok(None)) => {}
            }
        }
    }
    ctx.label(match (inner, outer) { (_, Some(_)) => "fits", (Some(_), None) => "composition does not fit", _ => "derived set does not fit" });
    ctx.nontrivial_if(keys.len() >= 2);
    Ok(())
}

pub fn c04() -> Property {
    let spec = || prop_oneof![3 => small_spec(), 1 => large_spec()];
    let far = move || (huge_spec(), any::<u32>(), any::<u32>(), prop::collection::vec((any::<u32>(), any::<u32>()), 0..6))
        .prop_map(|(spec, start, step, outside)| Case { spec, start, step, outside });
    let case = move || (spec(), any::<u32>(), any::<u32>(), prop::collection::vec((any::<u32>(), any::<u32>()), 0..6))
        .prop_map(|(spec, start, step, outside)| Case { spec, start, step, outside });
    let card = || prop_oneof![3 => 1usize..6, 3 => 1usize..2000, 2 => (0u32..40).prop_map(|s| 1usize << s), 1 => (1u32..50).prop_map(|s| (1usize << s) + 1)];
    Property {
        id: "C04",
        level: "exploration",
        rule: "label sets of generated shape and size, every label group (or 5000 of them) encoded and decoded in a generated order, plus outsiders; single sets over generated strings; user-defined sets of generated cardinality up to 2^50; non-trivial = at least two label groups",
        arms: vec![
            Arm::new("groups", 40000, 400000, case, groups),
            Arm::new("huge", 300, 3000, far, groups),
            Arm::new("parts", 40000, 400000, || {
                let s = || prop_oneof![crate::util::any_text(), "[a-c]{0,3}".boxed()];
                (prop::collection::vec(s(), 0..30), prop::collection::vec(s(), 0..10)).prop_map(|(inside, outside)| Parts { inside, outside })
            }, parts),
            Arm::new("user-defined", 150000, 1500000, move || (prop::array::uniform4(card()), prop::collection::vec((prop::array::uniform4(any::<u32>()), any::<u8>()), 1..20)).prop_map(|(card, vals)| BigCase { card, vals }), big),
        ],
    }
}
