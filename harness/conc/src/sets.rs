//! The label sets used by the plans: eight keys each.
use measured::label::{DynamicLabelSet, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelValue, LabelVisitor, StaticLabelSet};
use measured::{FixedCardinalityLabel, LabelGroup};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const KEYS: usize = 8;
pub const NAMES: [&str; KEYS] = ["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"];

pub trait Keys: 'static {
    type L: LabelGroupSet<Unique: Send + Sync> + Send + Sync + 'static;
    fn new() -> Self::L;
    fn group(k: usize) -> <Self::L as LabelGroupSet>::Group<'static>;
    /// The labels of key k in a text export.
    fn text(k: usize) -> String;
}

#[derive(Clone, Copy, FixedCardinalityLabel)]
#[label(singleton = "k")]
pub enum K { K0, K1, K2, K3, K4, K5, K6, K7 }
const ALL: [K; KEYS] = [K::K0, K::K1, K::K2, K::K3, K::K4, K::K5, K::K6, K::K7];
pub struct Enum;
impl Keys for Enum {
    type L = StaticLabelSet<K>;
    fn new() -> Self::L { StaticLabelSet::new() }
    fn group(k: usize) -> K { ALL[k] }
    fn text(k: usize) -> String { format!("k=\"{}\"", NAMES[k]) }
}

#[derive(Clone, Copy, FixedCardinalityLabel)]
pub enum A { A0, A1, A2, A3 }
#[derive(Clone, Copy, FixedCardinalityLabel)]
pub enum B { B0, B1 }
#[derive(Clone, Copy, LabelGroup)]
#[label(set = TwoSet)]
pub struct TwoG { a: A, b: B }
pub struct Two;
impl Keys for Two {
    type L = Arc<TwoSet>;
    fn new() -> Self::L { Arc::new(TwoSet::new()) }
    fn group(k: usize) -> TwoG { TwoG { a: [A::A0, A::A1, A::A2, A::A3][k / 2], b: [B::B0, B::B1][k % 2] } }
    fn text(k: usize) -> String { format!("a=\"a{}\",b=\"b{}\"", k / 2, k % 2) }
}

/// A set of the user's own whose codes all hash alike.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct ClashKey(u8);
impl std::hash::Hash for ClashKey {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { 7u8.hash(h) }
}
pub struct ClashG(u8);
struct Str(&'static str);
impl LabelValue for Str {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_str(self.0) }
}
impl LabelGroup for ClashG {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) { v.write_value(LabelName::from_str("c"), &Str(NAMES[self.0 as usize])); }
}
pub struct ClashSet;
impl LabelGroupSet for ClashSet {
    type Group<'a> = ClashG;
    fn cardinality(&self) -> Option<usize> { Some(KEYS) }
    fn encode_dense(&self, k: ClashKey) -> Option<usize> { Some(k.0 as usize) }
    fn decode_dense(&self, v: usize) -> ClashG { ClashG(v as u8) }
    type Unique = ClashKey;
    fn encode(&self, g: ClashG) -> Option<ClashKey> { Some(ClashKey(g.0)) }
    fn decode(&self, k: &ClashKey) -> ClashG { ClashG(k.0) }
}
pub struct Clash;
impl Keys for Clash {
    type L = ClashSet;
    fn new() -> Self::L { ClashSet }
    fn group(k: usize) -> ClashG { ClashG(k as u8) }
    fn text(k: usize) -> String { format!("c=\"{}\"", NAMES[k]) }
}

/// A growing set of the user's own.
#[derive(Default)]
pub struct Growing(Mutex<(HashMap<&'static str, usize>, Vec<&'static str>)>);
impl LabelSet for Growing {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, v: &str) -> Option<usize> {
        let mut s = self.0.lock().unwrap();
        if let Some(i) = s.0.get(v) { return Some(*i) }
        let i = s.1.len();
        let v: &'static str = NAMES.iter().find(|n| **n == v).copied()?;
        s.0.insert(v, i);
        s.1.push(v);
        Some(i)
    }
    fn decode(&self, i: usize) -> &str { self.0.lock().unwrap().1[i] }
}
impl DynamicLabelSet for Growing {}

#[derive(Clone, Copy, LabelGroup)]
#[label(set = GrowSet)]
pub struct GrowG<'a> {
    b: B,
    #[label(dynamic_with = Arc<Growing>, default)]
    user: &'a str,
}
pub struct Grow;
impl Keys for Grow {
    type L = GrowSet;
    fn new() -> Self::L { GrowSet::new() }
    fn group(k: usize) -> GrowG<'static> { GrowG { b: [B::B0, B::B1][k % 2], user: NAMES[k / 2 * 2] } }
    fn text(k: usize) -> String { format!("b=\"b{}\",user=\"{}\"", k % 2, NAMES[k / 2 * 2]) }
}

#[cfg(feature = "lasso")]
#[derive(Clone, Copy, LabelGroup)]
#[label(set = RodeoSet)]
pub struct RodeoG<'a> {
    #[label(dynamic_with = lasso::ThreadedRodeo, default)]
    user: &'a str,
}
#[cfg(feature = "lasso")]
pub struct Rodeo;
#[cfg(feature = "lasso")]
impl Keys for Rodeo {
    type L = RodeoSet;
    fn new() -> Self::L { RodeoSet::new() }
    fn group(k: usize) -> RodeoG<'static> { RodeoG { user: NAMES[k] } }
    fn text(k: usize) -> String { format!("user=\"{}\"", NAMES[k]) }
}
