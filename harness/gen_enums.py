"""C15: label enums."""
import copy
from progs import *

COUNT = {"quick": 3000, "thorough": 80000}
PER_PROGRAM = 30
RULE = "non-trivial: a distinct enum with at least two variants whose names or integers need converting, or with a rename, a rename rule or a singleton name"

PRELUDE = """
use progbase::*;
use progbase::measured::{self as mm, label::{LabelGroupSet, LabelSet, StaticLabelSet, FixedCardinalitySet}, metric::name::MetricName, *};
"""
RULES = ("UpperCamelCase", "lowerCamelCase", "snake_case", "kebab-case", "SHOUTY_SNAKE_CASE", "SHOUTY-KEBAB-CASE", "Title Case", "Train-Case")
W = ("a", "x", "not", "found", "http", "tcp4", "v2", "im", "teapot", "ok", "id", "utf8", "server", "error", "café", "zone", "s3", "http2", "io", "grün")


def cap(w):
    return w[:1].upper() + w[1:]


def convert(rule, words):
    if rule == "UpperCamelCase":
        return "".join(map(cap, words))
    if rule == "lowerCamelCase":
        return "".join([words[0]] + [cap(w) for w in words[1:]])
    if rule == "Title Case":
        return " ".join(map(cap, words))
    if rule == "Train-Case":
        return "-".join(map(cap, words))
    up = rule.startswith("SHOUTY")
    return {"snake_case": "_", "kebab-case": "-", "SHOUTY_SNAKE_CASE": "_", "SHOUTY-KEBAB-CASE": "-"}[rule].join(w.upper() if up else w for w in words)


def variant_name(rng):
    """A name whose words are known from how it is written."""
    words = [rng.choice(W) for _ in range(rng.choice((1, 1, 2, 2, 3, 4)))]
    style = rng.choice(("camel", "camel", "camel", "acronym", "snake", "shouty", "mixed", "raw", "lower"))
    if style == "raw":
        w = rng.choice([r for r in RAW])
        return "r#" + w, [w]
    if style == "camel":
        # one-letter words would run together with the next one
        words = [w for w in words if len(w) > 1 and w[1].islower()] or ["zone"]
        name = "".join(map(cap, words))
    elif style == "lower":
        words = [w for w in words if len(w) > 1 and w[1].islower()] or ["zone"]
        name = "".join([words[0]] + [cap(w) for w in words[1:]])
    elif style == "acronym":
        words = [w for w in words if len(w) > 1 and w[1].islower() and w.isascii()] or ["zone"]
        k = rng.randrange(len(words))
        name = "".join(w.upper() if i == k else cap(w) for i, w in enumerate(words))
    else:
        if style == "snake":
            parts = words
        elif style == "shouty":
            parts = [w.upper() for w in words]
        else:
            parts = [rng.choice((w, cap(w), w.upper())) for w in words]
        if rng.random() < 0.2:
            n = str(rng.randrange(100))
            parts, words = parts + [n], words + [n]
        name = rng.choice(("_", "_", "_", "__")).join(parts)
        if rng.random() < 0.15:
            name = "_" + name
        if rng.random() < 0.15:
            name += "_"
    if name in RAW or name in ("self", "Self", "super", "crate", "not", "_"):
        name += "_"
    return name, words


KEYWORDS = {"as", "break", "const", "continue", "else", "enum", "extern", "false", "for", "if", "let", "pub", "return", "struct", "trait", "true",
            "unsafe", "where", "while", "become", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "gen"}


def gen(rng, i):
    n = rng.choice((1, 1, 2, 3, 4, 5, 8, 17) + ((130,) if i % 97 == 0 else ()))
    if i % 401 == 30:
        n = 300
    elif i % 1501 == 60:
        n = 1100
    rule = rng.choice((None,) + RULES + RULES)
    names, values, vs = set(), set(), []
    ints = rng.random() < 0.45
    disc = -1
    used = set()
    while len(vs) < n:
        name, words = variant_name(rng)
        if n > 20:
            name, words = f"{name.rstrip('_')}_{len(vs)}" if not name.startswith("r#") else f"Zone_{len(vs)}", (words if not name.startswith("r#") else ["zone"]) + [str(len(vs))]
        if name in names or plain(name) in KEYWORDS:
            continue
        v = {"name": name, "words": words, "rename": None, "int": None, "docs": rng.random() < 0.1}
        if rng.random() < 0.25:
            v["rename"] = rng.choice(("a-okay", "", "OK", "with space", 'q"uote', "new\nline", "back\\slash", "日本", "snake_case", "🦀")) + (rng.choice(("", "1", "x")))
        if ints and rng.random() < 0.55:
            d = rng.choice((0, 1, 2, 5, 9, 10, 99, 100, 200, 404, 500, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 53 + 1, 2 ** 62, rng.randrange(10 ** 6), rng.randrange(2 ** 40)))
            if d in used:
                continue
            v["int"] = [d, rng.choice(("dec", "dec", "dec", "hex", "oct", "bin", "under", "suffix", "zeros"))]
        elif disc + 1 in used:
            continue
        exported = str(v["int"][0]) if v["int"] else v["rename"] if v["rename"] is not None else convert(rule or "snake_case", words)
        if exported in values:
            continue
        disc = v["int"][0] if v["int"] else disc + 1
        used.add(disc)
        names.add(name)
        values.add(exported)
        vs.append(v)
    single = label_name(rng, set()) if rng.random() < 0.4 else None
    return {"rule": rule, "variants": vs, "single": single, "crate": rng.choice((None, None, None, "mm", "::progbase::measured")), "split": rng.random() < 0.5,
            "order": rng.randrange(6), "trail": rng.random() < 0.2, "macro": rng.random() < 0.15, "label": label_name(rng, set())}


def literal(d, form, repr_):
    if form == "hex":
        return hex(d)
    if form == "oct":
        return oct(d)
    if form == "bin":
        return bin(d)
    if form == "under":
        s = str(d)
        return s[:-2] + "_" + s[-2:] if len(s) > 2 else s + "_"
    if form == "zeros":
        return "00" + str(d)
    if form == "suffix":
        return str(d) + (repr_ or "isize")
    return str(d)


def values(spec):
    out = []
    for v in spec["variants"]:
        if v["int"]:
            out.append(("i", str(v["int"][0])))
        elif v["rename"] is not None:
            out.append(("s", v["rename"]))
        else:
            out.append(("s", convert(spec["rule"] or "snake_case", v["words"])))
    return out


def decl(spec):
    repr_ = {0: "u64", 1: "i64", 2: None}[spec["order"] % 3]
    cont = []
    if spec["rule"]:
        cont.append(f"rename_all = {esc(spec['rule'])}")
    if spec["single"]:
        cont.append(f"singleton = {esc(spec['single'])}")
    if spec["crate"]:
        cont.append(f"crate = {spec['crate']}")
    k = spec["order"] % max(len(cont), 1)
    cont = cont[k:] + cont[:k]
    lines = ["#[derive(FixedCardinalityLabel, Clone, Copy, Debug, PartialEq)]"] + ([f"#[repr({repr_})]"] if repr_ else [])
    if cont:
        lines += [f"#[label({c})]" for c in cont] if spec["split"] else [f"#[label({', '.join(cont)}{',' if spec['trail'] else ''})]"]
    lines.append("pub enum E {")
    for v in spec["variants"]:
        if v["docs"]:
            lines.append("    /// documented")
        if v["rename"] is not None:
            lines.append(f"    #[label(rename = {esc(v['rename'])})]")
        lines.append(f"    {v['name']}" + (f" = {literal(*v['int'], repr_)}" if v["int"] else "") + ",")
    lines.append("}")
    src = "\n".join(lines)
    if spec["macro"]:
        # the same declaration, with every identifier passed through a macro
        names = [v["name"] for v in spec["variants"]]
        body = src
        for i, v in reversed(list(enumerate(spec["variants"]))):
            body = body.replace(f"\n    {v['name']}" + (" =" if v["int"] else ","), f"\n    $n{i}" + (" =" if v["int"] else ","), 1)
            if v["int"]:
                body = body.replace(f"$n{i} = {literal(*v['int'], repr_)},", f"$n{i} = $d{i},", 1)
        pats = " ".join(f"$n{i}:ident" + (f" $d{i}:tt" if v["int"] else "") for i, v in enumerate(spec["variants"]))
        args = " ".join(v["name"] + (" " + literal(*v["int"], repr_) if v["int"] else "") for v in spec["variants"])
        src = "macro_rules! declare { (" + pats + ") => {\n" + body + "\n} }\ndeclare!(" + args + ");"
    return src


def render(spec):
    out = [PRELUDE, decl(spec), "#[derive(LabelGroup)]", "#[label(set = GSet)]", f"pub struct G {{ #[label(rename = {esc(spec['label'])})] e: E }}", "pub fn run() {"]
    out.append('    println!("card {} {}", <E as FixedCardinalityLabel>::cardinality(), FixedCardinalitySet::cardinality(&StaticLabelSet::<E>::new()));')
    out.append("    let all = [" + ", ".join(f"E::{v['name']}" for v in spec["variants"]) + "];")
    out.append("    let set = StaticLabelSet::<E>::new();")
    out.append("""    for (i, e) in all.iter().enumerate() {
        println!("v {} {} {} {} {}", FixedCardinalityLabel::encode(e), <E as FixedCardinalityLabel>::decode(i) == *e,
            LabelSet::encode(&set, *e).unwrap(), LabelSet::decode(&set, i) == *e, value(e));
    }
    let c: CounterVec<GSet> = CounterVec::new();
    for (i, e) in all.iter().enumerate() { c.inc_by(G { e: *e }, i as u64 + 1); }
    export_text(&One(c));""")
    if spec["single"]:
        out.append("""    for e in &all { println!("s {}", labels(e)); }
    let set = StaticLabelSet::<E>::new();
    println!("gcard {:?}", LabelGroupSet::cardinality(&set));
    for e in &all { println!("g {:?}", LabelGroupSet::encode(&set, *e).and_then(|i| LabelGroupSet::encode_dense(&set, i))); }
    let c: CounterVec<StaticLabelSet<E>> = CounterVec::new();
    for (i, e) in all.iter().enumerate() { c.inc_by(*e, i as u64 + 1); }
    export_text(&One(c));""")
    out.append("}")
    return "\n".join(out)


def sample(spec):
    return decl(spec)[:2500]


def nontrivial(spec):
    return len(spec["variants"]) >= 2


def scrape(line, label, want):
    fams = parse_text(unhex(line, "text").decode())
    if len(fams) != 1:
        return f"scrape: {len(fams)} families"
    got = sorted(((tuple(ls), float(n)) for _, ls, n in fams[0]["samples"]), key=lambda x: x[1])
    exp = [(((label, v[1]),), float(i + 1)) for i, v in enumerate(want)]
    if got != exp:
        return f"scrape: exported {got}, declared {exp}"
    return None


def check(spec, lines):
    want = values(spec)
    n = len(want)
    lines = list(lines)
    if lines[0] != f"card {n} {n}":
        return f"cardinality: {n} variants but {lines[0]!r}"
    for i, (k, v) in enumerate(want):
        exp = f"v {i} true {i} true {k}{v if k == 'i' else v.encode().hex()}"
        if lines[1 + i] != exp:
            got = lines[1 + i].split(" ")
            shown = bytes.fromhex(got[5][1:]).decode() if got[5].startswith("s") else got[5]
            return f"variant {spec['variants'][i]['name']}: encode, decode ok, set encode, set decode ok, value are {got[1:5]} {shown!r}, expected {exp.split(' ')[1:5]} {v!r}"
    lines = lines[1 + n:]
    try:
        m = scrape(lines[0], spec["label"], want)
    except ValueError as e:
        m = f"scrape: {e}"
    if m or not spec["single"]:
        return m
    for i, (k, v) in enumerate(want):
        exp = f"s {spec['single']}={k}{v if k == 'i' else v.encode().hex()}"
        if lines[1 + i] != exp:
            return f"singleton: {lines[1 + i]!r}, expected {exp!r}"
    lines = lines[1 + n:]
    if lines[0] != f"gcard Some({n})":
        return f"singleton: cardinality {lines[0]}"
    if lines[1:1 + n] != [f"g Some({i})" for i in range(n)]:
        return f"singleton: encodes as {lines[1:1 + n]}"
    try:
        return scrape(lines[1 + n], spec["single"], want)
    except ValueError as e:
        return f"scrape: {e}"


def valid(spec):
    seen, d = set(), -1
    for v in spec["variants"]:
        d = v["int"][0] if v["int"] else d + 1
        if d in seen:
            return False
        seen.add(d)
    vals = values(spec)
    return len({v for _, v in vals}) == len(vals)


def shrinks(spec):
    return filter(valid, shrinks_all(spec))


def shrinks_all(spec):
    vs = spec["variants"]
    k = len(vs) // 2
    while k > 1:
        for i in range(0, len(vs), k):
            s = copy.deepcopy(spec)
            del s["variants"][i:i + k]
            if s["variants"]:
                yield s
        k //= 2
    for i in range(len(vs)):
        if len(vs) > 1:
            s = copy.deepcopy(spec)
            del s["variants"][i]
            yield s
    for k in ("rule", "single", "crate"):
        if spec[k]:
            s = copy.deepcopy(spec)
            s[k] = None
            yield s
    for k in ("split", "macro", "trail"):
        if spec[k]:
            s = copy.deepcopy(spec)
            s[k] = False
            yield s
    for i, v in enumerate(vs):
        for k, x in (("rename", None), ("int", None), ("docs", False)):
            if v[k] != x:
                s = copy.deepcopy(spec)
                s["variants"][i][k] = x
                yield s
