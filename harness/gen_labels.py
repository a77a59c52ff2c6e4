"""C16: label groups and their sets."""
import copy, itertools
from progs import *

COUNT = {"quick": 1600, "thorough": 50000}
PER_PROGRAM = 16
RULE = "non-trivial: a distinct struct with at least two fields and more than one combination of values"

PRELUDE = """
use progbase::*;
use progbase::measured::{self as mm, label::{LabelGroupSet, LabelSet, LabelValue, LabelVisitor, StaticLabelSet, FixedCardinalitySet}, *};
use lasso::{RodeoReader, ThreadedRodeo};
use indexmap::IndexSet;
use std::{collections::HashSet, sync::Arc};
#[derive(FixedCardinalityLabel, Clone, Copy)] pub enum E1 { Only }
#[derive(FixedCardinalityLabel, Clone, Copy)] pub enum E2 { Get = 7, Post }
#[derive(FixedCardinalityLabel, Clone, Copy)] pub enum E3 { Red, Green, #[label(rename = "b l")] Blue }
#[derive(FixedCardinalityLabel, Clone, Copy)] pub enum E5 { A, B, C, D, E }
"""
ENUMS = {"E1": [("E1::Only", "only")], "E2": [("E2::Get", "7"), ("E2::Post", "post")],
         "E3": [("E3::Red", "red"), ("E3::Green", "green"), ("E3::Blue", "b l")], "E5": [(f"E5::{c}", c.lower()) for c in "ABCDE"]}
DIGITS = [(f"Digit({i})", str(i)) for i in range(4)]
# kind -> (field type, set type, dynamic, can default to a set with values)
KINDS = {
    "enum": None,
    "static": None,
    "digits": ("Digit", "Digits", False),
    "reader": ("&'a str", "RodeoReader", False),
    "areader": ("&'a str", "Arc<RodeoReader>", False),
    "iset": ("String", "IndexSet<String>", False),
    "isetref": ("&'static str", "indexmap::IndexSet<&'static str>", False),
    "phf": ("&'a str", "phf::OrderedSet<&'static str>", False),
    "rodeo": ("&'a str", "ThreadedRodeo", True),
    "arodeo": ("&'a str", "Arc<ThreadedRodeo>", True),
}
PHF = ["one", "two", "\"3\""]


def gen(rng, i):
    n = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8)) if rng.random() < 0.93 else rng.randrange(12, 45)
    big = n > 8
    taken, labels, fs = set(), set(), []
    dyn = rng.random() < 0.45
    while len(fs) < n:
        if big and len([f for f in fs if f["kind"] in ("rodeo", "arodeo")]) >= 8:
            dyn = False
        f = {"kind": rng.choice([k for k in list(KINDS) + ["enum", "enum"] if dyn or k not in ("rodeo", "arodeo")])}
        f["id"] = ident(rng, taken)
        f["rename"] = label_name(rng, set(labels)) if rng.random() < 0.3 or plain(f["id"]) in labels else None
        name = f["rename"] or plain(f["id"])
        if name in labels:
            continue
        labels.add(name)
        f["default"] = f["kind"] in ("digits", "static", "rodeo", "arodeo", "enum") and rng.random() < 0.5
        f["fixed"] = rng.random() < 0.3
        f["split"] = rng.random() < 0.4
        f["rev"] = rng.random() < 0.4
        f["vis"] = rng.choice(("", "pub ", "pub(crate) "))
        f["doc"] = rng.random() < 0.15
        if big and sum(len(options(f)) > 1 for f in fs) >= 6 and f["kind"] in ("enum", "static", "digits", "phf"):
            f["kind"], f["default"] = "reader", False
        if f["kind"] in ("enum", "static"):
            f["enum"] = rng.choice(list(ENUMS))
        elif f["kind"] not in ("digits", "phf"):
            t = set()
            f["values"] = [text_value(rng, t) for _ in range(rng.choice((1, 2, 3, 5)) if not big or f["kind"] in ("rodeo", "arodeo") or sum(len(options(f)) > 1 for f in fs) < 6 else 1)]
        fs.append(f)
    spec = {"fields": fs, "crate": rng.choice((None, None, None, "mm", "::progbase::measured")), "split": rng.random() < 0.5, "rev": rng.random() < 0.5,
            "macro": rng.random() < 0.2, "seed": rng.randrange(10 ** 6)}
    return spec


def options(f):
    """[(expression, label text)] of every value of a field"""
    if f["kind"] in ("enum", "static"):
        return ENUMS[f["enum"]]
    if f["kind"] == "digits":
        return DIGITS
    vs = PHF if f["kind"] == "phf" else f["values"]
    return [(esc(v) + (".to_string()" if f["kind"] == "iset" else ""), v) for v in vs]


def types(f):
    if f["kind"] == "enum":
        return f["enum"], None, False
    if f["kind"] == "static":
        return f["enum"], f"StaticLabelSet<{f['enum']}>", False
    return KINDS[f["kind"]]


def is_default(f):
    return f["default"] or f["kind"] == "enum"


def set_expr(f):
    k = f["kind"]
    if k == "static":
        return f"StaticLabelSet::<{f['enum']}>::new()"
    if k == "digits":
        return "Digits(4)"
    if k == "phf":
        return "phf::phf_ordered_set! { " + ", ".join(esc(v) for v in PHF) + " }"
    if k in ("rodeo", "arodeo"):
        return "ThreadedRodeo::new()" if k == "rodeo" else "Arc::new(ThreadedRodeo::new())"
    vs = "[" + ", ".join(esc(v) for v in f["values"]) + "]"
    if k in ("reader", "areader"):
        return f"rodeo(&{vs})" if k == "reader" else f"Arc::new(rodeo(&{vs}))"
    return f"IndexSet::from({vs})" if k == "isetref" else f"IndexSet::from({vs}.map(String::from))"


def lifetime(spec):
    return any("'a" in types(f)[0] for f in spec["fields"])


def decl(spec):
    cont = ["set = GSet"] + ([f"crate = {spec['crate']}"] if spec["crate"] else [])
    if spec["rev"]:
        cont.reverse()
    lines = ["#[derive(LabelGroup, Clone)]"] + ([f"#[label({c})]" for c in cont] if spec["split"] else [f"#[label({', '.join(cont)})]"])
    lines.append(f"pub struct G{'<' + chr(39) + 'a>' if lifetime(spec) else ''} {{")
    for i, f in enumerate(spec["fields"]):
        t, s, dyn = types(f)
        at = []
        if s:
            at.append(f"{'dynamic' if dyn else 'fixed'}_with = {s}")
        elif f["fixed"]:
            at.append("fixed")
        if f["default"]:
            at.append("default")
        if f["rename"]:
            at.append(f"rename = {esc(f['rename'])}")
        if f["rev"]:
            at.reverse()
        if f["doc"]:
            lines.append("    /// documented")
        if at:
            lines += [f"    #[label({a})]" for a in at] if f["split"] else [f"    #[label({', '.join(at)})]"]
        lines.append(f"    {f['vis']}{'$f%d' % i if spec['macro'] else f['id']}: {t},")
    lines.append("}")
    src = "\n".join(lines)
    if spec["macro"]:
        src = "macro_rules! declare { (" + " ".join(f"$f{i}:ident" for i in range(len(spec["fields"]))) + ") => {\n" + src + "\n} }\ndeclare!(" + " ".join(f["id"] for f in spec["fields"]) + ");"
    return src


def combos(spec):
    rng = random.Random(spec["seed"])
    opts = [options(f) for f in spec["fields"]]
    total = 1
    for o in opts:
        total *= len(o)
    if total <= 60:
        out = list(itertools.product(*opts))
        rng.shuffle(out)
        return out
    out = {tuple(rng.randrange(len(o)) for o in opts) for _ in range(60)}
    # neighbours: one field changed
    for c in list(out)[:10]:
        for i in range(len(opts)):
            d = list(c)
            d[i] = rng.randrange(len(opts[i]))
            out.add(tuple(d))
    out = sorted(out)
    rng.shuffle(out)
    return [tuple(o[i] for o, i in zip(opts, c)) for c in out[:60]]


def cardinality(spec):
    n = 1
    for f in spec["fields"]:
        if types(f)[2]:
            return None
        n *= len(options(f))
    return n


def group(spec, c):
    return "G { " + ", ".join(f"{f['id']}: {e}" for f, (e, _) in zip(spec["fields"], c)) + " }"


def unknown(spec):
    """Combinations with a value that is in no set."""
    out = []
    cs = combos(spec)
    for i, f in enumerate(spec["fields"]):
        if f["kind"] in ("reader", "areader", "isetref", "phf", "iset"):
            c = list(cs[0])
            c[i] = ('"no such value"' + (".to_string()" if f["kind"] == "iset" else ""), None)
            out.append(c)
        elif f["kind"] == "digits":
            c = list(cs[0])
            c[i] = ("Digit(9)", None)
            out.append(c)
    return out


DIGIT = """
#[derive(Clone, Copy)] pub struct Digit(u8);
impl LabelValue for Digit { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0 as i64) } }
pub struct Digits(usize);
impl Default for Digits { fn default() -> Self { Digits(4) } }
impl LabelSet for Digits {
    type Value<'a> = Digit;
    fn dynamic_cardinality(&self) -> Option<usize> { Some(self.0) }
    fn encode(&self, value: Digit) -> Option<usize> { Some(value.0 as usize).filter(|v| *v < self.0) }
    fn decode(&self, value: usize) -> Digit { assert!(value < self.0, "index out of range"); Digit(value as u8) }
}
impl FixedCardinalitySet for Digits {}
"""


def render(spec):
    fs = spec["fields"]
    order = [f for f in fs if types(f)[2]] + [f for f in fs if not types(f)[2]]
    args = [set_expr(f) for f in order if not is_default(f)]
    new = "GSet::default()" if not args and spec["seed"] % 2 else f"GSet::new({', '.join(args)})"
    out = [PRELUDE, DIGIT, decl(spec), f"fn set() -> GSet {{ {new} }}"]
    gt = "G<'_>" if lifetime(spec) else "G"
    out.append(f"fn groups() -> Vec<{gt.replace('_', 'static')}> {{ vec![{', '.join(group(spec, c) for c in combos(spec))}] }}")
    out.append("pub fn run() {")
    out.append("""    let s = set();
    println!("card {:?}", LabelGroupSet::cardinality(&s));
    let mut ids = HashSet::new();
    let mut dense = HashSet::new();
    for g in groups() {
        println!("direct {}", labels(&g));
        let id = LabelGroupSet::encode(&s, g.clone()).unwrap();
        println!("back {}", labels(&LabelGroupSet::decode(&s, &id)));
        assert!(LabelGroupSet::encode(&s, g.clone()).unwrap() == id, "encode gave another id the second time");
        ids.insert(id);
        if let Some(n) = LabelGroupSet::cardinality(&s) {
            let d = LabelGroupSet::encode_dense(&s, id).unwrap();
            assert!(d < n, "dense id {d} of {n}");
            dense.insert(d);
            println!("dense {}", labels(&LabelGroupSet::decode_dense(&s, d)));
        }
    }
    println!("ids {} {}", ids.len(), dense.len());""")
    for c in unknown(spec):
        out.append(f"    println!(\"unknown {{}}\", LabelGroupSet::encode(&s, {group(spec, c)}).is_none());")
    n = cardinality(spec)
    for how in ["with_label_set", "sparse_with_label_set"] + (["dense_with_label_set"] if n is not None else []):
        out.append(f"    let c: CounterVec<GSet> = CounterVec::{how}(set());")
        out.append("    for (i, g) in groups().into_iter().enumerate() { c.inc_by(g, i as u64 + 1); }\n    export_text(&One(c));")
    if n is not None and n <= 200:
        out.append("    let mut c: CounterVec<GSet> = CounterVec::dense_with_label_set(set()); c.init_all_dense(); export_text(&One(c));")
    out.append("}")
    return "\n".join(out)


def sample(spec):
    return decl(spec)[:2500]


def nontrivial(spec):
    return len(spec["fields"]) >= 2 and len(combos(spec)) > 1


def names(spec):
    return [f["rename"] or plain(f["id"]) for f in spec["fields"]]


def shown(spec, c):
    out = []
    for f, name, (_, text) in zip(spec["fields"], names(spec), c):
        integer = f["kind"] == "digits" or f.get("enum") == "E2" and text == "7"
        out.append(f"{name}=i{text}" if integer else f"{name}=s{text.encode().hex()}")
    return ",".join(out)


def check(spec, lines):
    lines = list(lines)
    n, cs, ns = cardinality(spec), combos(spec), names(spec)
    want = "card None" if n is None else f"card Some({n})"
    if lines[0] != want:
        return f"cardinality: {lines[0]!r}, the fields say {want!r}"
    i = 1
    for c in cs:
        exp = shown(spec, c)
        for what in ("direct", "back") + (("dense",) if n is not None else ()):
            if lines[i] != f"{what} {exp}":
                return f"{what}: {lines[i]!r}, expected {exp!r}"
            i += 1
    if lines[i] != f"ids {len(cs)} {len(cs) if n is not None else 0}":
        return f"identities: {len(cs)} combinations share {lines[i]!r} ids"
    i += 1
    for c in unknown(spec):
        if lines[i] != "unknown true":
            return "unknown: a combination with a value outside its set was encoded"
        i += 1
    exp = sorted((tuple((k, t) for k, (_, t) in zip(ns, c)), float(j + 1)) for j, c in enumerate(cs))
    try:
        for k in range(2 + (n is not None)):
            fams = parse_text(unhex(lines[i], "text").decode())
            got = sorted((tuple(ls), float(v)) for _, ls, v in fams[0]["samples"])
            if got != exp:
                return f"scrape: exported {got}, updated {exp}"
            i += 1
        if n is not None and n <= 200:
            fams = parse_text(unhex(lines[i], "text").decode())
            got = sorted((tuple(ls), float(v)) for _, ls, v in fams[0]["samples"]) if fams else []
            exp = sorted((tuple((k, t) for k, (_, t) in zip(ns, c)), 0.0) for c in itertools.product(*[options(f) for f in spec["fields"]]))
            if got != exp:
                return f"scrape of all combinations: exported {got}, expected {exp}"
    except ValueError as e:
        return f"scrape: {e}"
    return None


def shrinks(spec):
    for i in range(len(spec["fields"])):
        s = copy.deepcopy(spec)
        del s["fields"][i]
        yield s
    for k, x in (("crate", None), ("split", False), ("macro", False)):
        if spec[k] != x:
            s = copy.deepcopy(spec)
            s[k] = x
            yield s
    for i, f in enumerate(spec["fields"]):
        for k, x in (("rename", None), ("fixed", False), ("split", False), ("rev", False), ("doc", False), ("vis", "")):
            if f[k] != x and (k != "rename" or plain(f["id"]) not in [n for j, n in enumerate(names(spec)) if j != i]):
                s = copy.deepcopy(spec)
                s["fields"][i][k] = x
                yield s
        if len(f.get("values", ())) > 1:
            s = copy.deepcopy(spec)
            s["fields"][i]["values"].pop()
            yield s
