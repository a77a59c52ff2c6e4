"""C17: declarations with one fault, next to the same declaration without it."""
import copy
from progs import *

COUNT = {"quick": 2400, "thorough": 60000}
BATCH = 40
RULE = "non-trivial: a distinct pair of a declaration that compiles and the same declaration with one fault"

PRELUDE = """
use progbase::*;
use progbase::measured::{self as mm, label::{LabelName, StaticLabelSet}, metric::{name::MetricName, histogram::Thresholds}, *};
use lasso::{RodeoReader, ThreadedRodeo};
use indexmap::IndexSet;
use std::sync::Arc;
#[derive(FixedCardinalityLabel, Clone, Copy)] pub enum K { Red, Green }
#[derive(LabelGroup)] #[label(set = KSet)] pub struct KG { k: K }
#[derive(MetricGroup, Default)] pub struct Sub { s: Counter }
"""


# An item: {"derive", "shape", "name", "cont": [container attributes], "fields": [{"attrs", "name", "type"}], "split": bool}

def listing(attr, args, split, ind=""):
    if not args:
        return ""
    return "".join(f"{ind}#[{attr}({a})]\n" for a in args) if split else f"{ind}#[{attr}({', '.join(args)})]\n"


def src(it):
    if it["derive"] == "const":
        return it["text"] + "\n"
    attr = "metric" if it["derive"] == "MetricGroup" else "label"
    d = it["derive"] + (", Clone, Copy" if it["derive"] == "FixedCardinalityLabel" else "")
    out = f"#[derive({d})]\n" + listing(attr, it["cont"], it["split"])
    life = "<'a>" if any("'a" in f["type"] for f in it["fields"]) else ""
    sh = it["shape"]
    if sh == "unit":
        return out + f"pub struct X{life};\n"
    if sh == "tuple":
        return out + f"pub struct X{life}(" + ", ".join(f["type"] or "u32" for f in it["fields"]) + ");\n"
    out += f"pub {sh if sh != 'enum-item' else 'enum'} X{life} {{\n"
    for f in it["fields"]:
        out += listing(attr, f["attrs"], f["split"], "    ")
        if sh == "enum-item":
            out += f"    {f['name']}{f['type']},\n"
        elif sh == "enum":
            out += f"    {f['name'].replace('r#', 'R')},\n"
        elif sh == "union":
            out += f"    {f['name']}: std::mem::ManuallyDrop<{f['type'] or 'u32'}>,\n"
        else:
            out += f"    {f['name']}: {f['type'] or 'u32'},\n"
    return out + "}\n"


# ---- bases

def base(rng):
    d = rng.choice(("FixedCardinalityLabel", "LabelGroup", "LabelGroup", "MetricGroup", "MetricGroup", "const"))
    it = {"derive": d, "cont": [], "fields": [], "split": rng.random() < 0.5}
    if rng.random() < 0.3:
        it["cont"].append(rng.choice(("crate = mm", "crate = ::progbase::measured")))
    if d == "const":
        kind = rng.choice(("MetricName", "LabelName", "in_namespace", "WithNamespace"))
        it.update(kind=kind, value=metric_name(rng) if kind != "LabelName" else label_name(rng, set()))
        it["text"] = const(kind, it["value"])
        return it
    taken, labels = set(), set()
    if d == "FixedCardinalityLabel":
        it["shape"] = "enum-item"
        if rng.random() < 0.5:
            it["cont"].append(f'rename_all = "{rng.choice(RULES)}"')
        if rng.random() < 0.5:
            it["cont"].append(f'singleton = "{label_name(rng, set())}"')
        for i in range(rng.choice((1, 2, 3, 5))):
            f = {"name": rng.choice(("Alpha", "BetaGamma", "HTTP", "Not_found", "x")) + str(i), "type": "", "attrs": [], "split": False}
            if rng.random() < 0.3:
                f["attrs"].append(f"rename = {esc(text_value(rng, set()))}")
            elif rng.random() < 0.3:
                f["type"] = f" = {i * 10 + 5}"
            it["fields"].append(f)
    elif d == "LabelGroup":
        it["shape"] = "struct"
        it["cont"].append("set = XSet")
        for i in range(rng.choice((1, 2, 3, 4))):
            t, at = rng.choice((("K", []), ("K", ["fixed"]), ("&'a str", ["fixed_with = RodeoReader"]), ("String", ["fixed_with = IndexSet<String>"]),
                                ("&'a str", ["dynamic_with = ThreadedRodeo"]), ("&'a str", ["dynamic_with = ThreadedRodeo", "default"]),
                                ("&'a str", ["dynamic_with = Arc<ThreadedRodeo>"]), ("K", ["fixed_with = StaticLabelSet<K>", "default"])))
            f = {"name": ident(rng, taken), "type": t, "attrs": list(at), "split": rng.random() < 0.5}
            if rng.random() < 0.4:
                f["attrs"].append(f'rename = "{label_name(rng, labels)}"')
            rng.shuffle(f["attrs"])
            it["fields"].append(f)
    else:
        it["shape"] = "struct"
        if rng.random() < 0.6:
            it["cont"].append("new()")
        for i in range(rng.choice((1, 2, 3, 4))):
            t, at = rng.choice((("Counter", []), ("Gauge", ["init = mk_gauge(3)"]), ("Histogram<2>", ["metadata = Thresholds::with_buckets([1.0, 2.0])"]),
                                ("CounterVec<KSet>", ["label_set = KSet::new()"]), ("CounterVec<KSet>", ["label_set = KSet::new()", "metadata = ()"]),
                                ("Sub", ["flatten"]), ("Sub", ["NS"]), ("Sub", ["NS", "init = Sub::default()"]), ("Option<Counter>", [])))
            f = {"name": ident(rng, taken), "type": t, "attrs": [f'namespace = "{metric_name(rng)}"' if a == "NS" else a for a in at], "split": rng.random() < 0.5}
            if t != "Sub" and rng.random() < 0.4:
                f["attrs"].append(f'rename = "{metric_name(rng)}"')
            rng.shuffle(f["attrs"])
            it["fields"].append(f)
    rng.shuffle(it["cont"])
    return it


RULES = ("UpperCamelCase", "lowerCamelCase", "snake_case", "kebab-case", "SHOUTY_SNAKE_CASE", "SHOUTY-KEBAB-CASE", "Title Case", "Train-Case")
BADRULES = ("camelCase", "SCREAMING_SNAKE_CASE", "", "snake-case", "Snake_Case", "SNAKE_CASE", "title case", "train-case", "kebab_case", "PascalCase",
            "upperCamelCase", "LowerCamelCase", "UPPERCASE", "lowercase", "Title-Case", "SHOUTY-SNAKE-CASE", "SHOUTY_KEBAB_CASE", "snake_case ", " snake_case")


def const(kind, v):
    if kind in ("MetricName", "LabelName"):
        return f"pub const X: &{kind} = {kind}::from_str({esc(v)});"
    if kind == "in_namespace":
        return f'pub const X: mm::metric::name::WithNamespace<&MetricName> = MetricName::from_str("a").in_namespace({esc(v)});'
    return f"pub const X: mm::metric::name::WithNamespace<u32> = mm::metric::name::WithNamespace::new({esc(v)}, 1);"


def bad_name(rng, label):
    """A name just outside the grammar."""
    good = metric_name(rng).replace(":", "_") if label else metric_name(rng)
    k = rng.random()
    if k < 0.12:
        return ""
    if k < 0.3:
        return rng.choice("0123456789") + rng.choice(("", good))
    bad = rng.choice(["-", ".", " ", "/", "@", "[", "`", "{", "\\", '"', "\n", "\t", "é", "日", "\u00a0", "~", ";", "'", "$", "A\u0300", "\u00b2", "\x00", "\x7f"] + [":"] * (6 if label else 0))
    i = rng.choice((0, len(good), rng.randrange(len(good) + 1)))
    return good[:i] + bad + good[i:]


# ---- faults: functions (rng, item) -> (class, description), changing the item, or None

def insert(rng, lst, x):
    lst.insert(rng.randrange(len(lst) + 1), x)


def f_unknown(rng, it):
    d = it["derive"]
    words = ["foo", 'foo = "x"', "foo = 1", "foo(bar)", "renam", 'rename_al = "snake_case"', "defaults", "Fixed", "r#fixed", "skip", 'help = "x"', 'docs = "x"', "fixed::with", "inits = 1", "flattened"]
    container = rng.random() < 0.45
    if container:
        other = {"FixedCardinalityLabel": ['rename = "x"', "set = YSet", "default", "new()"], "LabelGroup": ['rename = "x"', 'rename_all = "snake_case"', "new()", 'singleton = "x"', "default"],
                 "MetricGroup": ["set = YSet", 'rename = "x"', 'namespace = "x"', "flatten", "init = 1"]}[d]
        a = rng.choice(words + other * 2)
        insert(rng, it["cont"], a)
    else:
        other = {"FixedCardinalityLabel": ['rename_all = "snake_case"', 'singleton = "x"', "crate = mm", "default", "fixed"],
                 "LabelGroup": ["set = YSet", "crate = mm", 'namespace = "x"', "flatten", 'rename_all = "snake_case"', 'singleton = "x"'],
                 "MetricGroup": ["crate = mm", "new()", "default", "fixed", "fixed_with = KSet", "dynamic_with = KSet"]}[d]
        a = rng.choice(words + other * 2)
        insert(rng, rng.choice(it["fields"])["attrs"], a)
    return "attr", f"unknown {'container' if container else 'field'} attribute {a}"


def f_duplicate(rng, it):
    """Repeats an attribute the declaration has, with the same or another value."""
    d = it["derive"]
    places = [(it["cont"], a) for a in it["cont"]] + [(f["attrs"], a) for f in it["fields"] for a in f["attrs"]]
    if not places:
        return None
    lst, a = rng.choice(places)
    key = a.split(" ")[0].split("(")[0]
    alt = {"rename_all": f'rename_all = "{rng.choice(RULES)}"', "singleton": 'singleton = "other"', "crate": "crate = ::measured", "rename": 'rename = "other"', "set": "set = YSet",
           "new": "new(a: u32)", "namespace": 'namespace = "other"', "init": "init = Default::default()", "metadata": "metadata = ()", "label_set": "label_set = KSet::new()",
           "fixed_with": "fixed_with = StaticLabelSet<K>", "dynamic_with": "dynamic_with = Arc<ThreadedRodeo>"}.get(key, a)
    insert(rng, lst, rng.choice((a, alt)))
    return "attr", f"repeated attribute {key}"


def f_contradict(rng, it):
    d = it["derive"]
    if d == "LabelGroup":
        f = rng.choice(it["fields"])
        have = next((a.split(" ")[0] for a in f["attrs"] if a.startswith(("fixed", "dynamic"))), None)
        if have is None:
            return None
        opts = {"fixed": "fixed", "fixed_with": "fixed_with = StaticLabelSet<K>", "dynamic_with": "dynamic_with = ThreadedRodeo"}
        new = rng.choice([k for k in opts if k != have])
        insert(rng, f["attrs"], opts[new])
        return "attr", f"{have} with {new}"
    if d == "MetricGroup":
        f = rng.choice(it["fields"])
        keys = [a.split(" ")[0] for a in f["attrs"]]
        kinds = [k for k in keys if k in ("rename", "namespace", "flatten")]
        inits = [k for k in keys if k in ("init", "metadata", "label_set")]
        opts = []
        if kinds:
            opts += [o for k, o in (("rename", 'rename = "other"'), ("namespace", 'namespace = "other"'), ("flatten", "flatten")) if k not in kinds]
        if "init" in inits:
            opts += ["metadata = ()", "label_set = KSet::new()"]
        elif inits:
            opts += ["init = Default::default()"]
        if not opts:
            return None
        new = rng.choice(opts)
        insert(rng, f["attrs"], new)
        return "attr", f"{'/'.join(kinds + inits)} with {new.split(' ')[0]}"
    return None


def f_rule(rng, it):
    if it["derive"] != "FixedCardinalityLabel":
        return None
    r = rng.choice(BADRULES)
    it["cont"] = [a for a in it["cont"] if not a.startswith("rename_all")]
    insert(rng, it["cont"], f"rename_all = {esc(r)}")
    return "attr", f"unknown rename rule {r!r}"


def f_name(rng, it):
    d = it["derive"]
    if d == "const":
        n = bad_name(rng, it["kind"] == "LabelName")
        it["text"] = const(it["kind"], n)
        return "const", f"{it['kind']} {n!r}"
    if d == "FixedCardinalityLabel":
        n = bad_name(rng, True)
        it["cont"] = [a for a in it["cont"] if not a.startswith("singleton")]
        insert(rng, it["cont"], f"singleton = {esc(n)}")
        return "const", f"singleton name {n!r}"
    f = rng.choice(it["fields"])
    if d == "MetricGroup" and f["type"] == "Sub":
        if not any(a.startswith("namespace") for a in f["attrs"]):
            return None
        n = bad_name(rng, False)
        f["attrs"] = [f"namespace = {esc(n)}" if a.startswith("namespace") else a for a in f["attrs"]]
        return "const", f"namespace {n!r}"
    if rng.random() < 0.2:
        f["attrs"] = [a for a in f["attrs"] if not a.startswith("rename")]
        f["name"] = rng.choice(("é", "größe", "x日", "_ü"))
        return "const", f"field name {f['name']}"
    n = bad_name(rng, d == "LabelGroup")
    f["attrs"] = [a for a in f["attrs"] if not a.startswith("rename")]
    insert(rng, f["attrs"], f"rename = {esc(n)}")
    return "const", f"name {n!r}"


def f_shape(rng, it):
    d = it["derive"]
    if d == "FixedCardinalityLabel":
        k = rng.random()
        if k < 0.6:
            f = rng.choice(it["fields"])
            f["type"] = rng.choice(("(u32)", "(K)", "(u8, u8)", " { x: u8 }", " { k: K }", "(K, u8)"))
            # integers and data do not go together in Rust itself
            for g in it["fields"]:
                if g["type"].startswith(" ="):
                    g["type"] = ""
            return "attr", f"variant with data {f['name']}{f['type']}"
        it["shape"] = rng.choice(("struct", "union", "tuple", "unit"))
        for g in it["fields"]:
            g["name"], g["type"], g["attrs"] = g["name"].lower(), "u32", []
        return "attr", f"FixedCardinalityLabel on a {it['shape']}"
    it["shape"] = rng.choice(("enum", "union", "tuple", "unit"))
    for g in it["fields"]:
        g["attrs"] = []
        g["type"] = "u32" if it["shape"] == "union" else g["type"].replace("'a", "'static")
    return "attr", f"{d} on a {it['shape']}"


def f_set(rng, it):
    if it["derive"] != "LabelGroup":
        return None
    k = rng.random()
    if k < 0.25:
        it["cont"].remove("set = XSet")
        return "attr", "missing set name"
    f = rng.choice(it["fields"])
    f["attrs"] = [a for a in f["attrs"] if a.startswith("rename")]
    if k < 0.7:
        t, s = rng.choice((("&'a str", "RodeoReader"), ("String", "IndexSet<String>"), ("K", "StaticLabelSet<K>"), ("&'a str", "Arc<RodeoReader>"), ("&'static str", "IndexSet<&'static str>"),
                           ("&'a str", "phf::OrderedSet<&'static str>")))
        f["type"] = t
        insert(rng, f["attrs"], f"dynamic_with = {s}")
        return "type", f"{s} as a dynamic set"
    if k < 0.85:
        f["type"] = "&'a str"
        s = rng.choice(("ThreadedRodeo", "Arc<ThreadedRodeo>"))
        insert(rng, f["attrs"], f"fixed_with = {s}")
        return "type", f"{s} as a fixed set"
    f["type"] = rng.choice(("String", "&'static str", "u32", "bool", "Sub"))
    return "type", f"{f['type']} as a fixed label"


FAULTS = (f_unknown, f_duplicate, f_contradict, f_rule, f_name, f_name, f_shape, f_set, f_set)


def pair(rng):
    while True:
        b = base(rng)
        f = rng.choice(FAULTS)
        if b["derive"] == "const" and f is not f_name:
            continue
        m = copy.deepcopy(b)
        if f in (f_unknown, f_duplicate, f_contradict, f_shape):
            for g in m["fields"]:
                g["split"] = rng.random() < 0.5
            m["split"] = rng.random() < 0.5
        r = f(rng, m)
        if r and src(m) != src(b):
            # the split flags are not the fault
            b["split"] = m["split"]
            for x, y in zip(b["fields"], m["fields"]):
                x["split"] = y["split"]
            if src(m) == src(b):
                continue
            return {"base": b, "mutant": m, "class": r[0], "fault": r[1]}


# ---- verdicts

def lined(mods):
    """-> source, [(index, first line, last line)]"""
    text, ranges = HEAD, []
    for i, s in mods:
        body = f"mod m{i} {{\n{PRELUDE}\n{s}\n}}\n"
        first = text.count("\n") + 1
        text += body
        ranges.append((i, first, text.count("\n")))
    return text + "fn main() {}\n", ranges


def lines_of(d):
    out = set()

    def span(s):
        while s:
            if s.get("is_primary", True) and s["file_name"].endswith("prog.rs"):
                out.add(s["line_start"])
            s = (s.get("expansion") or {}).get("span")
    for s in d.get("spans", ()):
        if s.get("is_primary"):
            span(s)
    return out


def rejected(rustc, mods):
    """Which of the modules the compiler reports an error in, compiling them together."""
    text, ranges = lined(mods)
    ok, diags = rustc.compile(text)
    if ok:
        return set()
    got = set()
    for d in diags:
        for l in lines_of(d):
            for i, a, b in ranges:
                if a <= l <= b:
                    got.add(i)
    return got


def compiles(rustc, s, full):
    """A module alone, to the end if `full`."""
    text, _ = lined([(0, s)])
    if not full:
        return rustc.compile(text)
    with tempfile.TemporaryDirectory() as tmp:
        return rustc.compile(text, os.path.join(tmp, "prog"))


def judge(rustc, pairs):
    """{index: pair} -> {index: message}"""
    out = {}
    todo = [(i, src(p["base"])) for i, p in pairs.items()]

    def bases(mods):
        ok, diags = rustc.compile(lined(mods)[0])
        if ok:
            return
        if len(mods) == 1:
            out[mods[0][0]] = "a valid declaration does not compile:\n" + rendered(diags)
            return
        bases(mods[:len(mods) // 2])
        bases(mods[len(mods) // 2:])
    bases(todo)
    for cls in ("attr", "const", "type"):
        mods = [(i, src(p["mutant"])) for i, p in pairs.items() if p["class"] == cls and i not in out]
        if not mods:
            continue
        got = rejected(rustc, mods)
        for i, s in mods:
            if i not in got and compiles(rustc, s, False)[0] and compiles(rustc, s, True)[0]:
                out[i] = f"an invalid declaration compiles: {pairs[i]['fault']}"
    return out


def shrink_pair(rustc, p, msg):
    t0 = time.time()
    again = True
    while again and time.time() - t0 < 60:
        again = False
        n = len(p["base"]["fields"])
        cands = []
        for k in range(n):
            q = copy.deepcopy(p)
            del q["base"]["fields"][k], q["mutant"]["fields"][k]
            if n > 1 and src(q["base"]) != src(q["mutant"]):
                cands.append(q)
        for q in cands:
            m = judge(rustc, {0: q}).get(0)
            if m and m.split(":")[0] == msg.split(":")[0]:
                p, msg, again = q, m, True
                break
    return p, msg


def explore_bad(pid, tier, seed):
    rustc = Rustc()
    r = Result()
    r.rule = RULE
    n = COUNT[tier]
    seen, classes, fails = set(), {}, []

    def chunk(k):
        rng = random.Random(f"{pid}:{seed}:{k}")
        pairs = {i: pair(rng) for i in range(BATCH)}
        return pairs, judge(rustc, pairs)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(chunk, k) for k in range((n + BATCH - 1) // BATCH)]
        for f in concurrent.futures.as_completed(futs):
            pairs, bad = f.result()
            for i, p in pairs.items():
                r.evaluations += 2
                key = src(p["base"]) + src(p["mutant"])
                if key not in seen:
                    seen.add(key)
                    c = re.split(r"[ {(]", p["fault"])[0] + ":" + p["base"]["derive"]
                    classes[c] = classes.get(c, 0) + 1
                    if len(r.samples) < 6 and classes[c] == 1:
                        r.samples.append(p["fault"] + "\n" + src(p["mutant"]))
                if i in bad:
                    fails.append((p, bad[i]))
            if len(fails) >= 20:
                for g in futs:
                    g.cancel()
                break
    kinds = set()
    for p, msg in sorted(fails, key=lambda f: len(src(f[0]["mutant"]))):
        k = msg.split(" ")[:2] + p["fault"].split(" ")[:2]
        if tuple(k) in kinds or len(kinds) >= 3:
            continue
        kinds.add(tuple(k))
        p, msg = shrink_pair(rustc, p, msg)
        r.violation(pid, f"{seed}-{len(kinds)}", {"kind": "bad", "pair": p, "source": src(p["mutant"]), "message": msg},
                    f"{pid}: {msg}\n--- without the fault\n{src(p['base'])}--- with it\n{src(p['mutant'])}")
    r.nontrivial = len(seen)
    r.extra = {"fault_classes": dict(sorted(classes.items(), key=lambda x: -x[1])[:40]), "failures": len(fails)}
    return r


def replay_pair(p):
    msg = judge(Rustc(), {0: p}).get(0)
    print("--- without the fault\n" + src(p["base"]) + "--- with it\n" + src(p["mutant"]))
    print(msg or "holds")
    return 1 if msg else 0
