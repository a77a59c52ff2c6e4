//! The label sets under test, behind one interface.
use indexmap::IndexSet;
use lasso::{Rodeo, RodeoReader, ThreadedRodeo};
use measured::label::{ComposedGroup, LabelGroupSet, LabelValue, LabelVisitor, StaticLabelSet};
use measured::{FixedCardinalityLabel, LabelGroup};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub type Key = Vec<u32>;
pub type Labels = Vec<(String, String)>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dim {
    /// `n` values in the set, and some outside of it when `outsiders`.
    Fixed { n: u32, outsiders: bool },
    /// Any value is fine; keys are drawn from `universe`.
    Dynamic { universe: u32 },
}
pub const OUTSIDERS: u32 = 3;

pub trait Subject: Send + Sync {
    type Set: LabelGroupSet<Unique: Send + Sync> + Send + Sync + 'static;
    fn new_set(&self) -> Self::Set;
    fn group<'a>(&'a self, key: &[u32]) -> <Self::Set as LabelGroupSet>::Group<'a>;
    fn labels(&self, key: &[u32]) -> Labels;
    fn dims(&self) -> Vec<Dim>;
    fn contained(&self, key: &[u32]) -> bool {
        self.dims().iter().zip(key).all(|(d, k)| match d {
            Dim::Fixed { n, .. } => k < n,
            Dim::Dynamic { .. } => true,
        })
    }
    fn cardinality(&self) -> Option<usize> {
        self.dims().iter().try_fold(1usize, |acc, d| match d {
            Dim::Fixed { n, .. } => acc.checked_mul(*n as usize),
            Dim::Dynamic { .. } => None,
        })
    }
    /// A key for arbitrary numbers; in the set unless `outside`.
    fn key(&self, raw: &[u32], outside: Option<u32>) -> Option<Key> {
        let dims = self.dims();
        let mut key = vec![];
        for (i, d) in dims.iter().enumerate() {
            let r = raw[i % raw.len()].wrapping_add(if i < raw.len() { 0 } else { 7 * i as u32 });
            key.push(match d {
                Dim::Fixed { n: 0, .. } => return None,
                Dim::Fixed { n, .. } => r % n,
                Dim::Dynamic { universe } => r % universe,
            });
        }
        if let Some(o) = outside {
            let cands: Vec<usize> = (0..dims.len()).filter(|i| matches!(dims[*i], Dim::Fixed { outsiders: true, .. })).collect();
            if cands.is_empty() {
                return None;
            }
            let i = cands[o as usize % cands.len()];
            if let Dim::Fixed { n, .. } = dims[i] {
                key[i] = n + o % OUTSIDERS;
            }
        }
        Some(key)
    }
}

/// Distinct strings, a few of them nasty.
pub fn strings(n: u32, tag: &str) -> Vec<String> {
    let nasty = ["", " ", "a", "A", "a ", "aa", "\"", "\\", "\n", "é", "a\\n", "a,b=\"c\"", "}", "日本", "0", "00"];
    (0..n)
        .map(|i| match nasty.get(i as usize) {
            // the last few of a pool are outsiders: plain and nasty ones end up on both sides
            Some(s) if i % 2 == 0 || n < 9 => (*s).to_owned(),
            _ if i % 5 == 3 => format!("/{tag}/{i}"),
            _ => format!("{tag}{i}"),
        })
        .collect()
}

fn reader(pool: &[String], n: u32) -> RodeoReader {
    Rodeo::from_iter(pool[..n as usize].iter().map(|s| s.as_str())).into_reader()
}

pub struct Pool {
    pub n: u32,
    pub s: Vec<String>,
}
impl Pool {
    pub fn fixed(n: u32, tag: &str) -> Pool {
        Pool { n, s: strings(n + OUTSIDERS, tag) }
    }
    pub fn dynamic(n: u32, tag: &str) -> Pool {
        let n = n.max(1);
        Pool { n, s: strings(n, tag) }
    }
    fn dim(&self) -> Dim {
        Dim::Fixed { n: self.n, outsiders: true }
    }
    fn dyn_dim(&self) -> Dim {
        Dim::Dynamic { universe: self.n }
    }
    fn get(&self, i: u32) -> &str {
        &self.s[i as usize]
    }
}

macro_rules! pairs { ($($n:literal = $v:expr),* $(,)?) => { vec![$(($n.to_owned(), ($v).to_string())),*] } }

// ---- plain enums
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum One { Only }
impl One {
    pub const ALL: &'static [One] = &[One::Only];
    pub const NAMES: &'static [&'static str] = &["only"];
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum Three { User, Internal, Network }
impl Three {
    pub const ALL: &'static [Three] = &[Three::User, Three::Internal, Three::Network];
    pub const NAMES: &'static [&'static str] = &["user", "internal", "network"];
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum Five { A, BB, CcDd, E, F }
impl Five {
    pub const ALL: &'static [Five] = &[Five::A, Five::BB, Five::CcDd, Five::E, Five::F];
    pub const NAMES: &'static [&'static str] = &["a", "bb", "cc_dd", "e", "f"];
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "kind")]
pub enum Verb { Get, Post, Put, Delete }
impl Verb {
    pub const ALL: &'static [Verb] = &[Verb::Get, Verb::Post, Verb::Put, Verb::Delete];
    pub const NAMES: &'static [&'static str] = &["get", "post", "put", "delete"];
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum Code { Ok = 200, Created = 201, BadRequest = 400, NotFound = 404, Oops = 500, Zero = 0, One }
impl Code {
    pub const ALL: &'static [Code] = &[Code::Ok, Code::Created, Code::BadRequest, Code::NotFound, Code::Oops, Code::Zero, Code::One];
    pub const NAMES: &'static [&'static str] = &["200", "201", "400", "404", "500", "0", "one"];
}

// ---- derived groups
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = TwoSet)]
pub struct Two { pub kind: Three, pub code: Code }

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = LoneSet)]
pub struct Lone { pub only: One }

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = EnumReaderSet)]
pub struct EnumReader<'a> {
    pub kind: Five,
    #[label(fixed_with = RodeoReader)]
    pub route: &'a str,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = ReaderSet)]
pub struct Reader<'a> {
    #[label(fixed_with = RodeoReader)]
    pub route: &'a str,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = DynSet)]
pub struct Dyn<'a> {
    #[label(dynamic_with = ThreadedRodeo, default)]
    pub user: &'a str,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = MixedSet)]
pub struct Mixed<'a> {
    #[label(dynamic_with = ThreadedRodeo, default)]
    pub user: &'a str,
    #[label(fixed_with = RodeoReader)]
    pub route: &'a str,
    #[label(dynamic_with = ThreadedRodeo, default, rename = "host_name")]
    pub host: &'a str,
    pub kind: Three,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct IntL(pub i64);
impl std::hash::Hash for IntL { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl Eq for IntL {}
impl LabelValue for IntL {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0) }
}
pub fn int_value(i: u32) -> i64 {
    match i { 0 => 0, 1 => -1, 2 => i64::MIN, 3 => i64::MAX, i => (i as i64) * 1_000_003 - 5_000_000 }
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = IndexedSet)]
pub struct Indexed {
    #[label(fixed_with = IndexSet<IntL>)]
    pub port: IntL,
    pub kind: Five,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = PhfSet)]
pub struct Phf<'a> {
    pub code: Code,
    #[label(fixed_with = phf::OrderedSet<&'static str>)]
    pub word: &'a str,
}
const WORDS: [&str; 9] = ["loop", "continue", "break", "fn", "extern", "", "while", "for", "Loop"];
fn words() -> phf::OrderedSet<&'static str> {
    phf::phf_ordered_set! { "loop", "continue", "break", "fn", "extern", "" }
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = ArcPartsSet)]
pub struct ArcParts<'a> {
    #[label(fixed_with = Arc<RodeoReader>)]
    pub route: &'a str,
    #[label(dynamic_with = Arc<ThreadedRodeo>)]
    pub user: &'a str,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = TripleSet)]
pub struct Triple<'a> {
    #[label(fixed_with = RodeoReader)]
    pub a: &'a str,
    #[label(fixed_with = Arc<RodeoReader>, rename = "b_renamed")]
    pub b: &'a str,
    pub one: One,
    #[label(fixed_with = RodeoReader)]
    pub c: &'a str,
}

// ---- subjects
pub struct SKind;
impl Subject for SKind {
    type Set = StaticLabelSet<Verb>;
    fn new_set(&self) -> Self::Set { StaticLabelSet::new() }
    fn group<'a>(&'a self, k: &[u32]) -> Verb { Verb::ALL[k[0] as usize] }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("kind" = Verb::NAMES[k[0] as usize]) }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: 4, outsiders: false }] }
}
pub struct SLone;
impl Subject for SLone {
    type Set = LoneSet;
    fn new_set(&self) -> LoneSet { LoneSet::new() }
    fn group<'a>(&'a self, _: &[u32]) -> Lone { Lone { only: One::Only } }
    fn labels(&self, _: &[u32]) -> Labels { pairs!("only" = "only") }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: 1, outsiders: false }] }
}
pub struct STwo;
impl Subject for STwo {
    type Set = TwoSet;
    fn new_set(&self) -> TwoSet { TwoSet::new() }
    fn group<'a>(&'a self, k: &[u32]) -> Two { Two { kind: Three::ALL[k[0] as usize], code: Code::ALL[k[1] as usize] } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("kind" = Three::NAMES[k[0] as usize], "code" = Code::NAMES[k[1] as usize]) }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: 3, outsiders: false }, Dim::Fixed { n: 7, outsiders: false }] }
}
pub struct SEnumReader(pub Pool);
impl Subject for SEnumReader {
    type Set = EnumReaderSet;
    fn new_set(&self) -> EnumReaderSet { EnumReaderSet::new(reader(&self.0.s, self.0.n)) }
    fn group<'a>(&'a self, k: &[u32]) -> EnumReader<'a> { EnumReader { kind: Five::ALL[k[0] as usize], route: self.0.get(k[1]) } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("kind" = Five::NAMES[k[0] as usize], "route" = self.0.get(k[1])) }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: 5, outsiders: false }, self.0.dim()] }
}
pub struct SReader(pub Pool);
impl Subject for SReader {
    type Set = ReaderSet;
    fn new_set(&self) -> ReaderSet { ReaderSet::new(reader(&self.0.s, self.0.n)) }
    fn group<'a>(&'a self, k: &[u32]) -> Reader<'a> { Reader { route: self.0.get(k[0]) } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("route" = self.0.get(k[0])) }
    fn dims(&self) -> Vec<Dim> { vec![self.0.dim()] }
}
pub struct SDyn(pub Pool);
impl Subject for SDyn {
    type Set = DynSet;
    fn new_set(&self) -> DynSet { DynSet::new() }
    fn group<'a>(&'a self, k: &[u32]) -> Dyn<'a> { Dyn { user: self.0.get(k[0]) } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("user" = self.0.get(k[0])) }
    fn dims(&self) -> Vec<Dim> { vec![self.0.dyn_dim()] }
}
/// user, route, host, kind
pub struct SMixed(pub Pool, pub Pool, pub Pool);
impl Subject for SMixed {
    type Set = MixedSet;
    fn new_set(&self) -> MixedSet { MixedSet::new(reader(&self.1.s, self.1.n)) }
    fn group<'a>(&'a self, k: &[u32]) -> Mixed<'a> { Mixed { user: self.0.get(k[0]), route: self.1.get(k[1]), host: self.2.get(k[2]), kind: Three::ALL[k[3] as usize] } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("user" = self.0.get(k[0]), "route" = self.1.get(k[1]), "host_name" = self.2.get(k[2]), "kind" = Three::NAMES[k[3] as usize]) }
    fn dims(&self) -> Vec<Dim> { vec![self.0.dyn_dim(), self.1.dim(), self.2.dyn_dim(), Dim::Fixed { n: 3, outsiders: false }] }
}
pub struct SIndexed(pub u32);
impl Subject for SIndexed {
    type Set = IndexedSet;
    fn new_set(&self) -> IndexedSet { IndexedSet::new((0..self.0).map(|i| IntL(int_value(i))).collect()) }
    fn group<'a>(&'a self, k: &[u32]) -> Indexed { Indexed { port: IntL(int_value(k[0])), kind: Five::ALL[k[1] as usize] } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("port" = int_value(k[0]), "kind" = Five::NAMES[k[1] as usize]) }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: self.0, outsiders: true }, Dim::Fixed { n: 5, outsiders: false }] }
}
pub struct SPhf;
impl Subject for SPhf {
    type Set = PhfSet;
    fn new_set(&self) -> PhfSet { PhfSet::new(words()) }
    fn group<'a>(&'a self, k: &[u32]) -> Phf<'a> { Phf { code: Code::ALL[k[0] as usize], word: WORDS[k[1] as usize] } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("code" = Code::NAMES[k[0] as usize], "word" = WORDS[k[1] as usize]) }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: 7, outsiders: false }, Dim::Fixed { n: 6, outsiders: true }] }
}
pub struct SArcParts(pub Pool, pub Pool);
impl Subject for SArcParts {
    type Set = ArcPartsSet;
    fn new_set(&self) -> ArcPartsSet { ArcPartsSet::new(Arc::new(ThreadedRodeo::new()), Arc::new(reader(&self.0.s, self.0.n))) }
    fn group<'a>(&'a self, k: &[u32]) -> ArcParts<'a> { ArcParts { route: self.0.get(k[0]), user: self.1.get(k[1]) } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("route" = self.0.get(k[0]), "user" = self.1.get(k[1])) }
    fn dims(&self) -> Vec<Dim> { vec![self.0.dim(), self.1.dyn_dim()] }
}
pub struct STriple(pub Pool, pub Pool, pub Pool);
impl Subject for STriple {
    type Set = TripleSet;
    fn new_set(&self) -> TripleSet { TripleSet::new(reader(&self.0.s, self.0.n), Arc::new(reader(&self.1.s, self.1.n)), reader(&self.2.s, self.2.n)) }
    fn group<'a>(&'a self, k: &[u32]) -> Triple<'a> { Triple { a: self.0.get(k[0]), b: self.1.get(k[1]), one: One::Only, c: self.2.get(k[3]) } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("a" = self.0.get(k[0]), "b_renamed" = self.1.get(k[1]), "one" = "only", "c" = self.2.get(k[3])) }
    fn dims(&self) -> Vec<Dim> { vec![self.0.dim(), self.1.dim(), Dim::Fixed { n: 1, outsiders: false }, self.2.dim()] }
}
pub struct SCompose<A, B>(pub A, pub B);
impl<A: Subject, B: Subject> Subject for SCompose<A, B> {
    type Set = ComposedGroup<A::Set, B::Set>;
    fn new_set(&self) -> Self::Set { ComposedGroup(self.0.new_set(), self.1.new_set()) }
    fn group<'a>(&'a self, k: &[u32]) -> ComposedGroup<<A::Set as LabelGroupSet>::Group<'a>, <B::Set as LabelGroupSet>::Group<'a>> {
        let n = self.0.dims().len();
        ComposedGroup(self.0.group(&k[..n]), self.1.group(&k[n..]))
    }
    fn labels(&self, k: &[u32]) -> Labels {
        let n = self.0.dims().len();
        let mut l = self.0.labels(&k[..n]);
        l.extend(self.1.labels(&k[n..]));
        l
    }
    fn dims(&self) -> Vec<Dim> { let mut d = self.0.dims(); d.extend(self.1.dims()); d }
}
pub struct SArc<A>(pub A);
impl<A: Subject> Subject for SArc<A> {
    type Set = Arc<A::Set>;
    fn new_set(&self) -> Self::Set { Arc::new(self.0.new_set()) }
    fn group<'a>(&'a self, k: &[u32]) -> <A::Set as LabelGroupSet>::Group<'a> { self.0.group(k) }
    fn labels(&self, k: &[u32]) -> Labels { self.0.labels(k) }
    fn dims(&self) -> Vec<Dim> { self.0.dims() }
}
pub struct SStatic<A>(pub A);
impl<A: Subject> Subject for SStatic<A> {
    type Set = &'static A::Set;
    fn new_set(&self) -> Self::Set { Box::leak(Box::new(self.0.new_set())) }
    fn group<'a>(&'a self, k: &[u32]) -> <A::Set as LabelGroupSet>::Group<'a> { self.0.group(k) }
    fn labels(&self, k: &[u32]) -> Labels { self.0.labels(k) }
    fn dims(&self) -> Vec<Dim> { self.0.dims() }
}

/// A set of the user's own, whose codes hash alike on purpose (`m` hash values in all).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClashKey { v: u32, m: u32 }
impl std::hash::Hash for ClashKey { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.v % self.m).hash(h) } }
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct ClashGroup(u32);
impl LabelGroup for ClashGroup {
    fn visit_values(&self, v: &mut impl measured::label::LabelGroupVisitor) {
        v.write_value(measured::label::LabelName::from_str("clash"), &IntL(int_value(self.0)));
    }
}
pub struct ClashSet { n: u32, m: u32, dynamic: bool }
impl LabelGroupSet for ClashSet {
    type Group<'a> = ClashGroup;
    fn cardinality(&self) -> Option<usize> { (!self.dynamic).then_some(self.n as usize) }
    fn encode_dense(&self, v: ClashKey) -> Option<usize> { (!self.dynamic).then_some(v.v as usize) }
    fn decode_dense(&self, v: usize) -> ClashGroup { ClashGroup(v as u32) }
    type Unique = ClashKey;
    fn encode(&self, g: ClashGroup) -> Option<ClashKey> { (self.dynamic || g.0 < self.n).then_some(ClashKey { v: g.0, m: self.m }) }
    fn decode(&self, k: &ClashKey) -> ClashGroup { ClashGroup(k.v) }
}
pub struct SClash { n: u32, m: u32, dynamic: bool }
impl Subject for SClash {
    type Set = ClashSet;
    fn new_set(&self) -> ClashSet { ClashSet { n: self.n, m: self.m, dynamic: self.dynamic } }
    fn group<'a>(&'a self, k: &[u32]) -> ClashGroup { ClashGroup(k[0]) }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("clash" = int_value(k[0])) }
    fn dims(&self) -> Vec<Dim> { vec![if self.dynamic { Dim::Dynamic { universe: self.n } } else { Dim::Fixed { n: self.n, outsiders: true } }] }
}

/// Which label set, and the sizes of its variable parts.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    pub shape: Shape,
    pub sizes: [u32; 3],
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Shape {
    Singleton, Lone, TwoEnums, EnumReader, Reader, Dynamic, Mixed, Indexed, Phf, ArcParts, Triple,
    ComposeEnums, ComposeReaders, ComposeDynamic, ComposeNested, ArcSet, StaticSet, Clash, ClashDynamic, StaticSized,
}
pub const SHAPES: &[Shape] = &[
    Shape::Singleton, Shape::Lone, Shape::TwoEnums, Shape::EnumReader, Shape::Reader, Shape::Dynamic, Shape::Mixed, Shape::Indexed, Shape::Phf,
    Shape::ArcParts, Shape::Triple, Shape::ComposeEnums, Shape::ComposeReaders, Shape::ComposeDynamic, Shape::ComposeNested, Shape::ArcSet, Shape::StaticSet, Shape::Clash, Shape::ClashDynamic, Shape::StaticSized,
];
pub const SIZED: &[Shape] = &[Shape::EnumReader, Shape::Reader, Shape::Dynamic, Shape::Mixed, Shape::Indexed, Shape::ArcParts, Shape::Triple, Shape::ComposeReaders, Shape::ComposeDynamic, Shape::ArcSet, Shape::StaticSized, Shape::ComposeNested];

pub trait Visit {
    type Out;
    fn visit<S: Subject>(self, s: &S) -> Self::Out;
}
pub fn with<V: Visit>(spec: &Spec, v: V) -> V::Out {
    let [a, b, c] = spec.sizes;
    match spec.shape {
        Shape::Singleton => v.visit(&SKind),
        Shape::Lone => v.visit(&SLone),
        Shape::TwoEnums => v.visit(&STwo),
        Shape::EnumReader => v.visit(&SEnumReader(Pool::fixed(a, "r"))),
        Shape::Reader => v.visit(&SReader(Pool::fixed(a, "r"))),
        Shape::Dynamic => v.visit(&SDyn(Pool::dynamic(a, "u"))),
        Shape::Mixed => v.visit(&SMixed(Pool::dynamic(a, "u"), Pool::fixed(b, "r"), Pool::dynamic(c, "h"))),
        Shape::Indexed => v.visit(&SIndexed(a)),
        Shape::Phf => v.visit(&SPhf),
        Shape::ArcParts => v.visit(&SArcParts(Pool::fixed(a, "r"), Pool::dynamic(b, "u"))),
        Shape::Triple => v.visit(&STriple(Pool::fixed(a, "x"), Pool::fixed(b, "y"), Pool::fixed(c, "z"))),
        Shape::ComposeEnums => v.visit(&SCompose(SKind, STwoRenamed)),
        Shape::ComposeReaders => v.visit(&SCompose(SEnumReader(Pool::fixed(a, "r")), SCompose(SPhf, SLone))),
        Shape::ComposeDynamic => v.visit(&SCompose(SDyn(Pool::dynamic(a, "u")), SEnumReader(Pool::fixed(b, "r")))),
        Shape::ComposeNested => v.visit(&SCompose(SCompose(SLone, SKind), SCompose(SReader(Pool::fixed(a, "r")), SPhf2))),
        Shape::ArcSet => v.visit(&SArc(SEnumReader(Pool::fixed(a, "r")))),
        Shape::StaticSet => v.visit(&SStatic(SPhf)),
        Shape::StaticSized => v.visit(&SStatic(SReader(Pool::fixed(a, "r")))),
        Shape::Clash => v.visit(&SClash { n: a, m: b % 6 + 1, dynamic: false }),
        Shape::ClashDynamic => v.visit(&SClash { n: a.max(1), m: b % 6 + 1, dynamic: true }),
    }
}
// Variants with other label names, for compositions (label names of one sample must be distinct).
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = TwoRSet)]
pub struct TwoR { #[label(rename = "kind2")] pub kind: Three, #[label(rename = "code2")] pub code: Code }
pub struct STwoRenamed;
impl Subject for STwoRenamed {
    type Set = TwoRSet;
    fn new_set(&self) -> TwoRSet { TwoRSet::new() }
    fn group<'a>(&'a self, k: &[u32]) -> TwoR { TwoR { kind: Three::ALL[k[0] as usize], code: Code::ALL[k[1] as usize] } }
    fn labels(&self, k: &[u32]) -> Labels { pairs!("kind2" = Three::NAMES[k[0] as usize], "code2" = Code::NAMES[k[1] as usize]) }
    fn dims(&self) -> Vec<Dim> { STwo.dims() }
}
pub struct SPhf2;
impl Subject for SPhf2 {
    type Set = PhfSet;
    fn new_set(&self) -> PhfSet { SPhf.new_set() }
    fn group<'a>(&'a self, k: &[u32]) -> Phf<'a> { Phf { code: Code::ALL[k[0] as usize], word: WORDS[k[1] as usize] } }
    fn labels(&self, k: &[u32]) -> Labels { SPhf.labels(k) }
    fn dims(&self) -> Vec<Dim> { SPhf.dims() }
}

fn clamp(shape: Shape, sizes: [u32; 3]) -> Spec {
    Spec { shape, sizes }
}

/// Small sets of every shape.
pub fn small_spec() -> BoxedStrategy<Spec> {
    (prop::sample::select(SHAPES), prop::array::uniform3(prop_oneof![1 => Just(1u32), 8 => 2u32..9, 2 => 9u32..40]))
        .prop_map(|(s, z)| clamp(s, z))
        .boxed()
}
/// Sets from one label group to thousands, with the sizes around the default switch-over.
pub fn large_spec() -> BoxedStrategy<Spec> {
    let n = prop_oneof![
        2 => prop::sample::select(vec![0u32, 1, 255, 256, 257, 1023, 1024, 1025, 1500, 2048, 4096]),
        1 => 200u32..3000
    ];
    let m = prop_oneof![2 => prop::sample::select(vec![1u32, 2, 3, 31, 32, 33]), 1 => 1u32..20];
    (prop::sample::select(SIZED), n, m.clone(), m)
        .prop_map(|(s, n, m, k)| {
            let sizes = match s {
                // products near the switch-over and in the low thousands
                Shape::Triple => [if n > 600 { n / 40 } else { n.min(40) }, m, k.min(4)],
                Shape::EnumReader | Shape::Indexed | Shape::ArcSet => [if n >= 1000 { n / 5 + n % 5 } else { n }, m, k],
                Shape::ComposeReaders | Shape::ComposeNested => [(n / 200).max(1), m, k],
                Shape::Mixed => [n.clamp(1, 300), m, k.min(5)],
                Shape::ComposeDynamic => [n.clamp(1, 300), m, k],
                _ => [n, m, k],
            };
            clamp(s, sizes)
        })
        .boxed()
}
/// Sets of more than 2^16 label groups.
pub fn huge_spec() -> BoxedStrategy<Spec> {
    let shapes = &[Shape::Reader, Shape::Triple, Shape::Indexed, Shape::EnumReader, Shape::Mixed, Shape::Dynamic, Shape::ComposeReaders, Shape::ArcSet][..];
    (prop::sample::select(shapes), 0u32..8000)
        .prop_map(|(s, n)| {
            let sizes = match s {
                Shape::Triple => [260 + n % 40, 254 + n / 40 % 7, 1],
                // some with that many values of a single label
                Shape::Indexed | Shape::EnumReader | Shape::ArcSet if n % 4 == 0 => [65_000 + n, 1, 1],
                Shape::Indexed | Shape::EnumReader | Shape::ArcSet => [13_000 + n, 1, 1],
                Shape::Mixed => [300 + n % 50, 30, 4],
                Shape::ComposeReaders => [320 + n % 50, 1, 1],
                _ => [65_000 + n, 1, 1],
            };
            clamp(s, sizes)
        })
        .boxed()
}

// Sets that need no argument, at and above the size where the default storage changes.
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = FiveVerbsSet)]
pub struct FiveVerbs { pub a: Verb, pub b: Verb, pub c: Verb, pub d: Verb, pub e: Verb }
pub struct SFiveVerbs;
impl Subject for SFiveVerbs {
    type Set = FiveVerbsSet;
    fn new_set(&self) -> FiveVerbsSet { FiveVerbsSet::new() }
    fn group<'a>(&'a self, k: &[u32]) -> FiveVerbs { let v = |i: usize| Verb::ALL[k[i] as usize]; FiveVerbs { a: v(0), b: v(1), c: v(2), d: v(3), e: v(4) } }
    fn labels(&self, k: &[u32]) -> Labels { let v = |i: usize| Verb::NAMES[k[i] as usize]; pairs!("a" = v(0), "b" = v(1), "c" = v(2), "d" = v(3), "e" = v(4)) }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: 4, outsiders: false }; 5] }
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = FourCodesSet)]
pub struct FourCodes { pub a: Code, pub b: Code, pub c: Code, pub d: Code }
pub struct SFourCodes;
impl Subject for SFourCodes {
    type Set = FourCodesSet;
    fn new_set(&self) -> FourCodesSet { FourCodesSet::new() }
    fn group<'a>(&'a self, k: &[u32]) -> FourCodes { let v = |i: usize| Code::ALL[k[i] as usize]; FourCodes { a: v(0), b: v(1), c: v(2), d: v(3) } }
    fn labels(&self, k: &[u32]) -> Labels { let v = |i: usize| Code::NAMES[k[i] as usize]; pairs!("a" = v(0), "b" = v(1), "c" = v(2), "d" = v(3)) }
    fn dims(&self) -> Vec<Dim> { vec![Dim::Fixed { n: 7, outsiders: false }; 4] }
}
