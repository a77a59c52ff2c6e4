"""C14: metric groups."""
import copy, re
from progs import *

COUNT = {"quick": 1200, "thorough": 40000}
PER_PROGRAM = 12
RULE = ("non-trivial: a distinct declaration with at least two exported families that nests groups, renames, documents, wraps, or "
        "initialises a member")

PRELUDE = """
use progbase::*;
use progbase::measured::{self as mm, metric::{group::ComposedGroup, histogram::Thresholds, name::WithNamespace}, *};
use std::sync::Arc;
#[derive(FixedCardinalityLabel, Clone, Copy)]
pub enum K { Red, Green, Blue }
#[derive(LabelGroup)]
#[label(set = KSet)]
pub struct KG { k: K }
#[derive(LabelGroup)]
#[label(set = KRSet)]
pub struct KR<'a> { k: K, #[label(fixed_with = lasso::RodeoReader)] route: &'a str }
"""
KS = ("Red", "Green", "Blue")
ROUTES = ("/", "/a b", "/\"q\"")

SCALAR = {"counter": ("Counter", "u64", "mk_counter", "counter"), "gauge": ("Gauge", "i64", "mk_gauge", "gauge"), "fgauge": ("FloatGauge", "f64", "mk_float", "gauge")}
VEC = {"cvec": ("CounterVec", "counter"), "gvec": ("GaugeVec", "gauge"), "fvec": ("FloatGaugeVec", "gauge"), "hvec": ("HistogramVec", "histogram")}
DOCWORDS = ("help", "text", "for", "the", "metric", "a\\b", "\"quoted\"", "100%", "é", "{x}", "#", "TYPE", "x_total 1", "\\n", "'", "日本")


# ---- generation

def gen(rng, i):
    hist = rng.random() < 0.5
    names = set()
    st = {"n": 0, "names": names, "hist": hist, "deep": 0}
    root = gen_group(rng, st, 0, "", root=True)
    wrap = rng.choice(("plain", "plain", "plain", "ref", "arc", "optsome", "ns", "compose"))
    out = {"root": root, "wrap": wrap, "ns": metric_name(rng)}
    if wrap == "compose":
        out["second"] = gen_group(rng, st, 2, "")
    return out


def gen_group(rng, st, depth, prefix, root=False):
    st["n"] += 1
    g = {"gid": st["n"], "ctor": rng.random() < 0.75, "crate": rng.choice((None, None, None, "mm", "::progbase::measured", "super::mm_alias")),
         "split": rng.random() < 0.5, "gen": None, "fields": []}
    n = rng.choice((0, 1, 1, 2, 2, 3, 4)) if depth else rng.choice((1, 2, 3, 4, 6))
    taken = set()
    for _ in range(n):
        if depth < 4 and rng.random() < (0.45, 0.4, 0.35, 0.3)[depth]:
            g["fields"].append(gen_sub(rng, st, depth, prefix, taken))
        else:
            g["fields"].append(gen_metric(rng, st, prefix, taken))
    k = rng.random()
    if k < 0.15 and g["fields"]:
        g["gen"] = ["ty", rng.randrange(len(g["fields"]))]
    elif k < 0.25:
        c = [i for i, f in enumerate(g["fields"]) if f["k"] == "metric" and f["kind"] == "hist"]
        if c:
            g["gen"] = ["const", rng.choice(c)]
    elif k < 0.35 and root:
        c = [i for i, f in enumerate(g["fields"]) if f["k"] == "group" and f["wrap"] == "ref"]
        if c:
            g["gen"] = ["life", rng.choice(c)]
    return g


def unique(st, full):
    """Families have distinct names that are not sample names of another family."""
    around = {full + s for s in ("", "_bucket", "_sum", "_count")} | {re.sub("_(bucket|sum|count)$", "", full)}
    if around & st["names"]:
        return False
    st["names"].add(full)
    return True


def gen_metric(rng, st, prefix, taken):
    while True:
        f = {"k": "metric", "id": ident(rng, taken), "rename": metric_name(rng) if rng.random() < 0.35 else None}
        if unique(st, prefix + (f["rename"] or plain(f["id"]))):
            break
    kinds = ["counter", "gauge", "fgauge", "cvec", "gvec", "fvec", "custom"] + (["hist", "hvec", "hist"] if st["hist"] else [])
    f["kind"] = rng.choice(kinds)
    f["docs"] = []
    if rng.random() < 0.55:
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            t = " ".join(rng.choice(DOCWORDS) for _ in range(rng.choice((0, 1, 2, 4, 4)) if rng.random() < 0.96 else rng.randrange(20, 300)))
            form = rng.choice(("line", "line", "block", "attr"))
            if form != "line" and rng.random() < 0.4:
                t = t.replace(" ", rng.choice(("\n", "\n    ", "\n\n")), rng.choice((1, 5)))
            f["docs"].append([form, t])
    f["mix"] = rng.random() < 0.4
    f["split"] = rng.random() < 0.5
    f["opt"] = rng.choice((None, None, None, None, "some", "none"))
    f["decoy"] = rng.choice((None, None, None, "allow", "cfg", "comment"))
    if f["kind"] in SCALAR or f["kind"] == "custom":
        f["init"] = rng.choice(("default", "default", "init", "argval", "arg") + (("meta",) if f["kind"] != "custom" else ()))
        num = (lambda: rng.randrange(1, 10 ** rng.choice((1, 3, 9)))) if f["kind"] in ("counter", "custom") else (lambda: rng.randrange(-1000, 1000)) if f["kind"] == "gauge" else (lambda: rng.randrange(-4000, 4000) / 8)
        f["start"] = num() if f["init"] in ("init", "argval", "arg") else 0
        f["upd"] = num() if f["kind"] != "custom" and rng.random() < 0.7 else None
    else:
        f["set"] = rng.choice(("k", "k", "kr")) if f["kind"] != "hist" else None
        f["bounds"] = []
        if f["kind"] in ("hist", "hvec"):
            b, x = [], rng.randrange(-8, 8) / 4
            for _ in range(rng.choice((0, 1, 1, 2, 3))):
                b.append(x)
                x += rng.randrange(1, 9) / 4
            f["bounds"] = b
        if f["kind"] == "hist":
            f["init"] = rng.choice(("meta", "metaarg", "init"))
        elif f["set"] == "k":
            f["init"] = rng.choice(("meta", "metaarg", "both", "init")) if f["kind"] == "hvec" else rng.choice(("default", "default", "meta", "ls", "both", "init"))
        else:
            f["init"] = rng.choice(("both", "both", "init", "lsarg"))
        f["how"] = rng.choice(("dense", "sparse", "plain"))
        f["order"] = rng.random() < 0.5
        f["obs"] = []
        for _ in range(rng.choice((0, 1, 2, 3, 5))):
            v = rng.randrange(-16, 16) / 4 if f["kind"] in ("hist", "hvec", "fvec") else rng.randrange(1, 100)
            f["obs"].append([rng.randrange(3), rng.randrange(3), v])
    if f["opt"] == "none":
        f["init"] = rng.choice(("default", "init"))
    elif f["opt"] == "some":
        f["init"] = rng.choice(("init", "arg"))
        if "start" in f and not f["start"]:
            f["start"] = 3
    return f


def gen_sub(rng, st, depth, prefix, taken):
    f = {"k": "group", "id": ident(rng, taken), "mode": rng.choice(("flatten", "ns", "ns", "ns")), "ns": metric_name(rng)}
    f["wrap"] = rng.choice(("plain", "plain", "plain", "arc", "ref", "optsome", "optnone", "compose", "arcopt", "ns"))
    f["wns"] = metric_name(rng)
    f["init"] = rng.choice(("default", "init", "arg"))
    f["docs"] = [["line", "not a help text"]] if rng.random() < 0.3 else []
    f["split"] = rng.random() < 0.5
    p = prefix + (f["ns"] + "_" if f["mode"] == "ns" else "")
    if f["wrap"] == "ns":
        p += f["wns"] + "_"
    f["sub"] = gen_group(rng, st, depth + 1, p)
    if f["wrap"] == "compose":
        f["sub2"] = gen_group(rng, st, depth + 2, p)
    if f["wrap"] in ("ref", "compose", "ns", "optsome", "arcopt") and f["init"] == "default":
        f["init"] = "init"
    return f


# ---- rendering

class R:
    def __init__(self):
        self.items = []
        self.updates = []


def flt(x):
    s = repr(float(x))
    return f"({s})" if x < 0 else s


def arr(b):
    return "[" + ", ".join(flt(x) for x in b) + "]"


def metric_type(f, const=None):
    n = const or len(f["bounds"]) if "bounds" in f else None
    if f["kind"] in SCALAR:
        t = SCALAR[f["kind"]][0]
    elif f["kind"] == "custom":
        t = "Handmade"
    elif f["kind"] == "hist":
        t = f"Histogram<{n}>"
    elif f["kind"] == "hvec":
        t = f"HistogramVec<{'KSet' if f['set'] == 'k' else 'KRSet'}, {n}>"
    else:
        t = f"{VEC[f['kind']][0]}<{'KSet' if f['set'] == 'k' else 'KRSet'}>"
    return t


SETS = {"k": "KSet::new()", "kr": "KRSet::new(rodeo(&[" + ", ".join(esc(x) for x in ROUTES) + "]))"}


def metric_parts(f, const=None):
    """-> (type, init attributes, argument (type, expression) or None, expression that builds the same)"""
    base = metric_type(f, const)
    t = f"Option<{base}>" if f["opt"] else base
    some = (lambda e: f"Some({e})") if f["opt"] == "some" else (lambda e: e)
    arg = None
    if f["opt"] == "none":
        return t, ["init = None"] if f["init"] == "init" else [], None, "None"
    if f["kind"] in SCALAR or f["kind"] == "custom":
        mk, at = (SCALAR[f["kind"]][2], SCALAR[f["kind"]][1]) if f["kind"] in SCALAR else ("Handmade", "u64")
        val = flt(f["start"]) if f["kind"] == "fgauge" else str(f["start"])
        if f["init"] == "default":
            return t, [], None, "Default::default()"
        if f["init"] == "meta":
            return t, ["metadata = ()"], None, f"<{base}>::with_metadata(())"
        if f["init"] == "init":
            e = some(f"{mk}({val})")
            return t, [f"init = {e}"], None, e
        if f["init"] == "argval":
            return t, [f"init = {mk}(ARG)"], (at, val), f"{mk}({val})"
        return t, ["init = ARG"], (t, some(f"{mk}({val})")), some(f"{mk}({val})")
    md = f"Thresholds::with_buckets({arr(f['bounds'])})" if f["kind"] in ("hist", "hvec") else "()"
    mdt = f"Thresholds<{const or len(f['bounds'])}>" if f["kind"] in ("hist", "hvec") else "()"
    ls = SETS[f["set"]] if f["set"] else None
    if f["kind"] == "hist":
        whole = f"<{base}>::with_metadata({md})"
    else:
        whole = f"<{base}>::" + {"plain": "", "dense": "dense_", "sparse": "sparse_"}[f["how"]] + f"with_label_set_and_metadata({ls}, {md})"
    i = f["init"]
    if i == "arg":
        return t, ["init = ARG"], (t, some(whole)), some(whole)
    if i == "init":
        return t, [f"init = {some(whole)}"], None, some(whole)
    if i == "default":
        return t, [], None, whole
    a = []
    if i in ("meta", "both"):
        a.append(f"metadata = {md}")
    elif i == "metaarg":
        a.append("metadata = ARG")
        arg = (mdt, md)
    elif i == "lsarg" and f["kind"] == "hvec":
        a.append(f"metadata = {md}")
    if i in ("ls", "both"):
        a.append(f"label_set = {ls}")
    elif i == "lsarg":
        a.append("label_set = ARG")
        arg = ("KSet" if f["set"] == "k" else "KRSet", ls)
    if f["order"]:
        a.reverse()
    return t, a, arg, whole


def attr_lines(name, args, split, mix, docs):
    """The attributes of a field: docs and #[metric] lists in one of several arrangements."""
    lines = ([f"#[{name}({a})]" for a in args] if split else [f"#[{name}({', '.join(args)})]"]) if args else []
    ds = []
    for form, t in docs:
        ds.append({"line": f"/// {t}", "block": f"/** {t} */", "attr": f"#[doc = {esc(' ' + t)}]"}[form])
    if mix:
        out = []
        while lines or ds:
            if lines:
                out.append(lines.pop(0))
            if ds:
                out.append(ds.pop(0))
        return out
    return ds + lines


def render_group(r, g, root=False):
    """Adds the struct to r.items -> (its type where it is used, the expression that builds it)"""
    name = f"G{g['gid']}"
    gen = g["gen"]
    body, args, lits, cargs = [], [], [], []
    tyarg = None
    for i, f in enumerate(g["fields"]):
        special = gen[0] if gen and gen[1] == i else None
        if f["k"] == "metric":
            t, at, arg, lit = metric_parts(f, "N" if special == "const" else None)
            if special == "const":
                tyarg, concrete = len(f["bounds"]), lit
                if not (arg and f["init"] in ("metaarg", "arg")):
                    at, arg = ["init = ARG"], (t, None)
                lit = metric_parts(f)[3]
                if f["init"] == "metaarg":
                    arg = (arg[0], f"Thresholds::with_buckets({arr(f['bounds'])})")
                else:
                    arg = (arg[0], lit)
            if f["rename"]:
                at = [f"rename = {esc(f['rename'])}"] + at if not f["split"] else at + [f"rename = {esc(f['rename'])}"]
        else:
            t, lit = render_wrapped(r, f)
            at, arg = [f"namespace = {esc(f['ns'])}" if f["mode"] == "ns" else "flatten"], None
            if f["init"] == "init":
                at.append(f"init = {lit}")
            elif f["init"] == "arg":
                at.append("init = ARG")
                arg = (t, lit)
            if f["split"]:
                at.reverse()
            if special == "life":
                t2 = t.replace("&'static", "&'a")
                at = [x for x in at if not x.startswith("init")] + ["init = ARG"]
                t, arg = t2, (t2, lit)
        if special == "ty":
            tyarg = t
            at = [x for x in at if not x.startswith(("init", "metadata", "label_set"))] + ["init = ARG"]
            t, arg = "T", ("T", lit)
        if not g["ctor"]:
            at = [x for x in at if "ARG" not in x]
        if arg:
            # the argument has the name of the field, or another
            an = f["id"] if (i + g["gid"]) % 2 else f"arg{i}"
            at = [x.replace("ARG", an) for x in at]
            args.append(f"{an}: {arg[0]}")
            cargs.append(arg[1])
        lines = attr_lines("metric", at, f["split"], f.get("mix", False), f["docs"])
        d = f.get("decoy")
        if d == "allow":
            lines.insert(len(lines) // 2, "#[allow(dead_code)]")
        elif d == "cfg":
            lines.append("#[cfg(all())]")
        elif d == "comment":
            lines.append("// a comment that is no documentation")
        body += ["    " + l for l in lines] + [f"    pub {f['id']}: {t},"]
        lits.append(f"{f['id']}: {lit}")
    params = {None: "", "ty": "<T>", "const": "<const N: usize>", "life": "<'a>"}[gen[0] if gen else None]
    cont = []
    if g["crate"]:
        cont.append(f"crate = {g['crate']}")
    if g["ctor"]:
        cont.append(f"new({', '.join(args)})")
    out = ["/// not a help text either", "#[derive(MetricGroup)]"]
    if cont:
        out += [f"#[metric({c})]" for c in cont] if g["split"] else [f"#[metric({', '.join(cont)})]"]
    out += [f"pub struct {name}{params} {{"] + body + ["}"]
    use = name + {None: "", "ty": f"<{tyarg}>", "const": f"<{tyarg}>", "life": "<'static>"}[gen[0] if gen else None]
    expr = f"<{use}>::new({', '.join(cargs)})" if g["ctor"] else f"{{ let g: {use} = {name} {{ {', '.join(lits)} }}; g }}"
    out += [f"impl Default for {use} {{ fn default() -> Self {{ {expr} }} }}"]
    r.items.append("\n".join(out))
    return use, expr


def render_wrapped(r, f):
    w = f["wrap"]
    t, e = render_group(r, f["sub"])
    if w == "plain":
        return t, e
    if w == "arc":
        return f"Arc<{t}>", f"Arc::new({e})"
    if w == "ref":
        return f"&'static {t}", f"&*Box::leak(Box::new({e}))"
    if w == "optsome":
        return f"Option<{t}>", f"Some({e})"
    if w == "optnone":
        return f"Option<{t}>", "None"
    if w == "arcopt":
        return f"Arc<Option<{t}>>", f"Arc::new(Some({e}))"
    if w == "ns":
        return f"WithNamespace<{t}>", f"WithNamespace::new({esc(f['wns'])}, {e})"
    t2, e2 = render_group(r, f["sub2"])
    return f"ComposedGroup<{t}, {t2}>", f"ComposedGroup({e}, {e2})"


def walk(g, path, prefix, out, updates):
    """Appends the expected families, and the statements that bring them about."""
    for f in g["fields"]:
        here = f"{path}.{f['id']}" if path else None
        if f["k"] == "group":
            p = prefix + (f["ns"] + "_" if f["mode"] == "ns" else "")
            w = f["wrap"]
            if w == "optnone":
                continue
            if w == "ns":
                walk(f["sub"], None, p + f["wns"] + "_", out, updates)
            elif w in ("optsome", "arcopt"):
                walk(f["sub"], here and f"Option::as_ref(&{here}).unwrap()", p, out, updates)
            elif w == "compose":
                walk(f["sub"], here and here + ".0", p, out, updates)
                walk(f["sub2"], here and here + ".1", p, out, updates)
            else:
                walk(f["sub"], here, p, out, updates)
            continue
        fam = {"name": prefix + (f["rename"] or plain(f["id"])), "help": None, "samples": []}
        if f["docs"]:
            fam["help"] = " ".join("".join(" " + t for _, t in f["docs"]).split())
        k = f["kind"]
        out.append(fam)
        if f["opt"] == "none":
            fam["absent"] = True
            continue
        if f["opt"] == "some" and here:
            here += ".as_ref().unwrap()"
        if k in SCALAR or k == "custom":
            fam["type"] = SCALAR[k][3] if k in SCALAR else "counter"
            v = f["start"]
            if f["upd"] is not None and here:
                v += f["upd"]
                updates.append(f"{here}.inc_by({flt(f['upd']) if k == 'fgauge' else f['upd']});")
            fam["samples"].append(["", [], float(v)])
            continue
        fam["type"] = VEC[k][1] if k in VEC else "histogram"
        groups = {}
        for a, b, v in f["obs"] if here else []:
            key = () if k == "hist" else (a,) if f["set"] == "k" else (a, b)
            groups.setdefault(key, []).append(v)
            lab = "" if k == "hist" else f"KG {{ k: K::{KS[a]} }}, " if f["set"] == "k" else f"KR {{ k: K::{KS[a]}, route: {esc(ROUTES[b])} }}, "
            op = "observe" if k in ("hist", "hvec") else "inc_by"
            updates.append(f"{here}.{op}({lab}{flt(v) if k in ('hist', 'hvec', 'fvec') else v});")
        if k == "hist" and not groups:
            groups[()] = []
        for key, vs in groups.items():
            labels = [["k", KS[key[0]].lower()]] if key else []
            if len(key) == 2:
                labels.append(["route", ROUTES[key[1]]])
            if k in ("hist", "hvec"):
                for b in f["bounds"] + [float("inf")]:
                    fam["samples"].append(["_bucket", labels + [["le", b]], float(sum(v <= b for v in vs))])
                fam["samples"].append(["_sum", labels, float(sum(vs))])
                fam["samples"].append(["_count", labels, float(len(vs))])
            else:
                fam["samples"].append(["", labels, float(sum(vs))])


def expected(spec):
    out, updates = [], []
    w = spec["wrap"]
    walk(spec["root"], {"compose": "g.0", "optsome": "g.as_ref().unwrap()", "ns": None}.get(w, "g"), spec["ns"] + "_" if w == "ns" else "", out, updates)
    if w == "compose":
        walk(spec["second"], "g.1", "", out, updates)
    return out, updates


def has_hist(spec):
    return any(f.get("type") == "histogram" for f in expected_all(spec))


def expected_all(spec):
    s = json.dumps(spec)
    return [{"type": "histogram"}] if '"hist"' in s or '"hvec"' in s else []


def render(spec):
    r = R()
    t, e = render_group(r, spec["root"], True)
    w = spec["wrap"]
    e = {"plain": e, "ref": e, "arc": f"Arc::new({e})", "optsome": f"Some({e})", "ns": f"WithNamespace::new({esc(spec['ns'])}, {e})"}.get(w, e)
    if w == "compose":
        _, e2 = render_group(r, spec["second"])
        e = f"ComposedGroup({e}, {e2})"
    _, updates = expected(spec)
    ref = "&g" if w == "ref" else "g"
    call = f"export_text(&{ref});" + ("" if has_hist(spec) else f" export_proto(&{ref});")
    return PRELUDE + "mod mm_alias_home {}\n" + "\n".join(r.items).replace("super::mm_alias", "self::mm") + \
        f"\npub fn run() {{\n    let g = {e};\n    " + "\n    ".join(updates) + f"\n    {call}\n}}\n"


def sample(spec):
    r = R()
    render_group(r, spec["root"], True)
    return "\n".join(r.items)[-3000:]


def nontrivial(spec):
    n = [f for f in expected(spec)[0]]
    s = json.dumps(spec)
    return len(n) >= 2 and any(x in s for x in ('"sub"', '"line"', '"block"', '"attr"', '"start": ', '"some"'))


# ---- checking

def norm(h):
    return " ".join(h.split())


def num(s):
    return {"+Inf": float("inf"), "-Inf": float("-inf")}.get(s, None) if s in ("+Inf", "-Inf") else float(s)


def key(s):
    labels = tuple((k, num(str(v)) if k == "le" and s[0] == "_bucket" else v) for k, v in s[1])
    return (s[0], tuple(sorted(labels, key=str)), s[2])


def compare(want, got, what, text):
    empty = {f["name"] for f in want if f.get("absent") or not f["samples"]}
    names = [f["name"] for f in got]
    for f in got:
        if not f["samples"] and f["name"] not in empty:
            return f"{what}: the family {f['name']} has no samples"
        f["samples"] = [key([s[0], s[1], num(s[2]) if text else s[2]]) for s in f["samples"]]
    order = [f["name"] for f in want]
    if [n for n in order if n in set(names)] != names:
        return f"{what}: families are exported as {names}, the declaration says {order}"
    by = {f["name"]: f for f in got}
    for w in want:
        g = by.get(w["name"])
        if g is None:
            if w["samples"]:
                return f"{what}: {w['name']} is missing (exported: {names})"
            continue
        if w["help"] is None and g["help"] is not None or (g["help"] is not None or g["samples"]) and norm(g["help"] or "") != (w["help"] or ""):
            return f"{what}: {w['name']} has the help {g['help']!r}, declared {w['help']!r}"
        if w.get("absent"):
            if g["samples"]:
                return f"{what}: the absent member {w['name']} exports samples {g['samples']}"
            continue
        if g["type"] != w["type"] and (g["samples"] or g["type"] is not None):
            return f"{what}: {w['name']} has type {g['type']}, declared {w['type']}"
        a, b = sorted(map(key, w["samples"]), key=str), sorted(g["samples"], key=str)
        if a != b:
            return f"{what}: {w['name']} exports {b}, expected {a}"
    return None


def check(spec, lines):
    want, _ = expected(spec)
    try:
        got = parse_text(unhex(lines[0], "text").decode())
    except (ValueError, KeyError, IndexError, AssertionError, TypeError) as e:
        return f"text: not readable: {e!r}\n{lines}"
    m = compare(want, got, "text", True)
    if m or has_hist(spec):
        return m
    try:
        got = parse_proto(unhex(lines[1], "proto"))
    except (ValueError, KeyError, IndexError, AssertionError, TypeError) as e:
        return f"protobuf: not readable: {e!r}\n{lines}"
    return compare(want, [f for f in got if f["samples"]], "protobuf", False)


# ---- shrinking

def shrinks(spec):
    if spec["wrap"] != "plain":
        s = copy.deepcopy(spec)
        s["wrap"] = "plain"
        yield s

    def groups(s):
        def go(g):
            yield g
            for f in g["fields"]:
                if f["k"] == "group":
                    yield from go(f["sub"])
                    if "sub2" in f:
                        yield from go(f["sub2"])
        yield from go(s["root"])
        if "second" in s and s["wrap"] == "compose":
            yield from go(s["second"])
    n = sum(1 for _ in groups(spec))
    for i in range(n):
        g = list(groups(spec))[i]
        for j in range(len(g["fields"])):
            s = copy.deepcopy(spec)
            h = list(groups(s))[i]
            del h["fields"][j]
            if h["gen"]:
                h["gen"] = None
            yield s
    for i in range(n):
        g = list(groups(spec))[i]
        for k, v in (("gen", None), ("crate", None), ("ctor", False), ("split", False)):
            if g[k] != v:
                s = copy.deepcopy(spec)
                list(groups(s))[i][k] = v
                yield s
        for j, f in enumerate(g["fields"]):
            small = [("docs", []), ("split", False), ("wrap", "plain"), ("mode", "flatten"), ("rename", None), ("mix", False), ("decoy", None), ("obs", []), ("upd", None)]
            for k, v in small:
                if k in f and f[k] != v and not (k == "wrap" and f["wrap"] == "optnone"):
                    s = copy.deepcopy(spec)
                    list(groups(s))[i]["fields"][j][k] = v
                    yield s
