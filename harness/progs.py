"""Decides C14-C17: random declarations, compiled against /repo and run; what they export is compared
with what the declaration says, as known from the way it was built."""
import concurrent.futures, random, tempfile, time
from common import *

PROGBASE = os.path.join(HERE, "progbase")
JOBS = os.cpu_count() or 4


class Rustc:
    """Compiles programs against the crates as built from /repo."""

    def __init__(self):
        rc, out, err = run(["cargo", "build", "--offline", "--quiet", "--message-format=json"], cwd=PROGBASE)
        if rc != 0:
            raise CheckError(f"building {PROGBASE} failed:\n{err[-4000:]}")
        self.ext = {}
        for line in out.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        self.ext[m["target"]["name"].replace("-", "_")] = f
        self.ext["proto"] = self.ext["measured_prometheus_protobuf"]

    def compile(self, source, out=None):
        """-> (ok, diagnostics as JSON lines); without `out` only up to metadata."""
        with tempfile.TemporaryDirectory() as tmp:
            src = os.path.join(tmp, "prog.rs")
            with open(src, "w") as f:
                f.write(source)
            cmd = ["rustc", "--edition", "2021", "--crate-type", "bin", "--crate-name", "prog", "--error-format=json", "-A", "warnings",
                   "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "strip=symbols",
                   "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), src]
            for c in ("measured", "progbase", "proto", "lasso", "indexmap", "phf"):
                cmd += ["--extern", f"{c}={self.ext[c]}"]
            cmd += ["-o", out] if out else ["--emit=metadata", "-o", os.path.join(tmp, "prog.rmeta")]
            rc, o, err = run(cmd, timeout=300)
            diags = []
            for line in err.splitlines():
                try:
                    diags.append(json.loads(line))
                except ValueError:
                    diags.append({"level": "error", "message": line, "spans": [], "rendered": line})
            if rc not in (0, 1):
                raise CheckError(f"rustc ended with {rc}:\n{err[-2000:]}")
            return rc == 0, [d for d in diags if d.get("level", "").startswith("error")]


def rendered(diags, n=3):
    return "\n".join((d.get("rendered") or d["message"])[:1500] for d in diags[:n])


HEAD = "#![allow(warnings)]\n"


def assemble(mods):
    """mods: [(index, source of a module with `pub fn run()`)]"""
    src = HEAD
    for i, m in mods:
        src += f"mod m{i} {{\n{m}\n}}\n"
    src += "fn main() {\n" + "".join(f"    progbase::run({i}, m{i}::run);\n" for i, _ in mods) + "}\n"
    return src


def outputs(out):
    """stdout of an assembled program -> {index: [lines]} for the modules that ended"""
    res, cur = {}, None
    for line in out.splitlines():
        if line.startswith("@@ "):
            if line == "@@ end":
                res[cur[0]] = cur[1]
                cur = None
            else:
                cur = (int(line[3:]), [])
        elif cur is not None:
            cur[1].append(line)
    return res


def execute(rustc, mods, tmp):
    """Compile and run modules together -> {index: lines}, None if they do not compile, and the diagnostics."""
    fd, exe = tempfile.mkstemp(dir=tmp)
    os.close(fd)
    os.unlink(exe)
    ok, diags = rustc.compile(assemble(mods), exe)
    if not ok:
        return None, diags
    rc, out, err = run([exe], timeout=60)
    os.unlink(exe)
    res = outputs(out)
    if rc != 0 and len(mods) == 1 and crashed(rc, err):
        res[mods[0][0]] = [f"panic the program died (status {rc}): " + err[-500:].replace("\n", " ")]
    return res, []


def verdicts(rustc, prop, specs, tmp):
    """-> {index: None | message} for specs given as {index: spec}"""
    mods = [(i, prop.render(s)) for i, s in specs.items()]
    res, diags = execute(rustc, mods, tmp)
    if res is None:
        if len(mods) == 1:
            return {mods[0][0]: "a valid declaration does not compile:\n" + rendered(diags)}
        half = len(mods) // 2
        out = {}
        for part in (mods[:half], mods[half:]):
            out.update(verdicts(rustc, prop, {i: specs[i] for i, _ in part}, tmp))
        return out
    out = {}
    for i, s in specs.items():
        if i not in res:
            if len(mods) == 1:
                raise CheckError("a generated program ended without its output")
            out.update(verdicts(rustc, prop, {i: s}, tmp))
            continue
        lines = res[i]
        p = [l for l in lines if l.startswith("panic ")]
        out[i] = p[0] if p else prop.check(s, lines)
    return out


def shrink(rustc, prop, spec, msg, tmp, budget=120.0):
    """Greedily apply the smaller variants of a failing spec that still fail."""
    t0 = time.time()
    compile_fail = msg.startswith("a valid declaration")
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        cands = list(prop.shrinks(spec))
        for k in range(0, len(cands), JOBS):
            if time.time() - t0 > budget:
                break
            batch = cands[k:k + JOBS]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                got = list(ex.map(lambda c: verdicts(rustc, prop, {0: c}, tmp)[0], batch))
            hit = next(((c, m) for c, m in zip(batch, got) if m and m.startswith("a valid declaration") == compile_fail), None)
            if hit:
                spec, msg = hit
                progress = True
                break
    return spec, msg


def explore(pid, tier, seed, prop):
    rustc = Rustc()
    r = Result()
    r.rule = prop.RULE
    n = prop.COUNT[tier]
    per = prop.PER_PROGRAM
    t0, seen, done = time.time(), set(), 0
    with tempfile.TemporaryDirectory() as tmp:
        def chunk(k):
            rng = random.Random(f"{pid}:{seed}:{k}")
            specs = {i: prop.gen(rng, k * per + i) for i in range(per)}
            return specs, verdicts(rustc, prop, specs, tmp)
        fails = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(chunk, k) for k in range((n + per - 1) // per)]
            for f in concurrent.futures.as_completed(futs):
                specs, got = f.result()
                for i, s in specs.items():
                    r.evaluations += 1
                    key = json.dumps(s, sort_keys=True)
                    if prop.nontrivial(s) and key not in seen:
                        seen.add(key)
                        if len(r.samples) < 4:
                            r.samples.append(prop.sample(s))
                    if got[i]:
                        fails.append((s, got[i]))
                if len(fails) >= 20:
                    for g in futs:
                        g.cancel()
                    break
        kinds = set()
        for s, msg in sorted(fails, key=lambda f: len(json.dumps(f[0]))):
            kind = msg.split(":")[0].split("\n")[0][:60]
            if kind in kinds or len(kinds) >= 3:
                continue
            kinds.add(kind)
            s, msg = shrink(rustc, prop, s, msg, tmp, 60 if len(kinds) > 1 else 150)
            r.violation(pid, f"{seed}-{len(kinds)}", {"kind": "prog", "spec": s, "source": prop.render(s), "message": msg},
                        f"{pid}: {msg}\n--- declaration\n{prop.sample(s)}")
    r.nontrivial = len(seen)
    r.extra = {"programs": (n + per - 1) // per, "failures": len(fails)}
    return r


def replay_spec(prop, spec):
    rustc = Rustc()
    with tempfile.TemporaryDirectory() as tmp:
        msg = verdicts(rustc, prop, {0: spec}, tmp)[0]
    print(prop.render(spec))
    print(msg or "holds")
    return 1 if msg else 0


# ---- shared generators

WORDS = ("alpha", "beta", "gamma", "delta", "http", "user", "id", "request", "total", "x", "seconds", "tcp4", "v2", "ok", "error", "not",
         "found", "server", "io", "db", "cache", "hit", "rate", "count", "sum", "bucket", "le", "created", "info", "go", "utf8", "s3")
RAW = ("type", "fn", "match", "loop", "ref", "move", "use", "mod", "in", "impl", "static", "async", "dyn", "try", "yield", "abstract", "box", "union")
LOCALS = ("v", "enc", "value", "index", "index1", "card", "mul", "dynamic_index0", "dynamic_index1", "name", "new", "NAME", "x", "labels", "metadata", "e")


def esc(s):
    """A Rust string literal."""
    out = '"'
    for c in s:
        if c == '"' or c == "\\":
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def ident(rng, taken, raw=True):
    """A field identifier as written; `plain` gives its name."""
    while True:
        k = rng.random()
        if k < 0.12 and raw:
            s = "r#" + rng.choice(RAW)
        elif k < 0.3:
            s = rng.choice(LOCALS)
        else:
            s = "_".join(rng.choice(WORDS) for _ in range(rng.choice((1, 1, 2, 2, 3))))
            j = rng.random()
            if j < 0.06:
                s = "_" + s
            elif j < 0.12:
                s = s + "_"
            elif j < 0.18:
                s = s.replace("_", "__", 1)
            elif j < 0.22:
                s = s.upper()
            elif j < 0.26:
                s = "".join(w.capitalize() for w in s.split("_"))
            elif j < 0.28:
                s = "_" + str(rng.randrange(10))
        if plain(s) in ("self", "Self", "super", "crate", "_", "Ok", "Err", "Some", "None") or s in RAW:
            continue
        if plain(s) not in taken:
            taken.add(plain(s))
            return s


def plain(s):
    return s[2:] if s.startswith("r#") else s


def label_name(rng, taken):
    while True:
        n = rng.choice("abcxyzABCZ_") + "".join(rng.choice("abcxyzABCZ_0129") for _ in range(rng.choice((0, 1, 3, 6, 12))))
        if n not in taken:
            taken.add(n)
            return n


def metric_name(rng):
    return rng.choice("abcxyzABCZ_:") + "".join(rng.choice("abcxyzABCZ_:0129") for _ in range(rng.choice((0, 1, 3, 6, 12))))


NASTY = ['"', "\\", "\n", "a", "b", " ", "é", "日", "{", "}", "=", ",", "#", "\\n", "\t", "/", "%", "🦀", "0"]


def text_value(rng, taken):
    while True:
        t = "".join(rng.choice(NASTY) for _ in range(rng.choice((0, 1, 2, 3, 5, 8))))
        if t not in taken:
            taken.add(t)
            return t


# ---- reading exports

def unescape(s, quote):
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\":
            c = s[i + 1:i + 2]
            if c == "n":
                out += "\n"
            elif c == "\\" or (quote and c == '"'):
                out += c
            else:
                raise ValueError(f"bad escape in {s!r}")
            i += 2
        else:
            if quote and s[i] == '"':
                raise ValueError(f"bare quote in {s!r}")
            out += s[i]
            i += 1
    return out


SAMPLE = re.compile(r'([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{((?:[^"{}]*"(?:[^"\\]|\\.)*")*,?)\})? (\S+)$', re.S)
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\.)*)"(?:,|$)', re.S)


def parse_text(doc):
    """-> [{"name", "help", "type", "samples": [(suffix, [(label, value)], number text)]}] in document order"""
    fams = []

    def family(name, slot):
        if not fams or fams[-1]["name"] != name or fams[-1][slot] is not None or fams[-1]["samples"]:
            fams.append({"name": name, "help": None, "type": None, "samples": []})
        return fams[-1]
    if doc and not doc.endswith("\n"):
        raise ValueError("the last line has no end")
    for line in doc.split("\n"):
        if not line:
            continue
        if line.startswith("# HELP "):
            name, _, h = line[7:].partition(" ")
            family(name, "help")["help"] = unescape(h, False)
        elif line.startswith("# TYPE "):
            name, typ = line[7:].split(" ")
            family(name, "type")["type"] = typ
        elif line.startswith("#"):
            raise ValueError(f"unexpected comment {line!r}")
        else:
            m = SAMPLE.match(line)
            if not m:
                raise ValueError(f"no sample line: {line!r}")
            name, ls, num = m[1], m[2] or "", m[3]
            labels, pos = [], 0
            while pos < len(ls):
                l = LABEL.match(ls, pos)
                if not l:
                    raise ValueError(f"bad labels in {line!r}")
                labels.append((l[1], unescape(l[2], True)))
                pos = l.end()
            if not fams:
                raise ValueError(f"sample before any family: {line!r}")
            f = fams[-1]
            suffix = None
            if name == f["name"]:
                suffix = ""
            elif f["type"] == "histogram" and name.startswith(f["name"]) and name[len(f["name"]):] in ("_bucket", "_sum", "_count"):
                suffix = name[len(f["name"]):]
            if suffix is None:
                raise ValueError(f"sample {name} in the family {f['name']}")
            f["samples"].append((suffix, labels, num))
    return fams


def varint(b, i):
    x = s = 0
    while True:
        c = b[i]
        i += 1
        x |= (c & 127) << s
        s += 7
        if c < 128:
            return x, i


def fields(b):
    i, out = 0, []
    while i < len(b):
        k, i = varint(b, i)
        if k & 7 == 0:
            v, i = varint(b, i)
        elif k & 7 == 1:
            v = b[i:i + 8]
            i += 8
            assert len(v) == 8
        elif k & 7 == 2:
            n, i = varint(b, i)
            v = b[i:i + n]
            i += n
            assert len(v) == n
        else:
            raise ValueError(f"wire type {k & 7}")
        out.append((k >> 3, v))
    return out


PROTO_TYPES = {0: "counter", 1: "gauge"}


def parse_proto(b):
    import struct
    fams, i = [], 0
    while i < len(b):
        n, i = varint(b, i)
        if i + n > len(b):
            raise ValueError("a family is longer than the export")
        f = {"name": None, "help": None, "type": None, "samples": []}
        for t, v in fields(b[i:i + n]):
            if t == 1:
                f["name"] = v.decode()
            elif t == 2:
                f["help"] = v.decode()
            elif t == 3:
                f["type"] = PROTO_TYPES[v]
            elif t == 4:
                labels, num = [], None
                for t2, v2 in fields(v):
                    if t2 == 1:
                        d = dict(fields(v2))
                        labels.append((d[1].decode(), d.get(2, b"").decode()))
                    else:
                        assert num is None
                        num = struct.unpack("<d", dict(fields(v2))[1])[0]
                        f.setdefault("valuekind", set()).add({2: "gauge", 3: "counter"}[t2])
                f["samples"].append(("", labels, num))
            else:
                raise ValueError(f"field {t} in a family")
        fams.append(f)
        i += n
    return fams


def unhex(line, what):
    assert line.startswith(what + " ") or line == what, line
    return bytes.fromhex(line[len(what):].strip())
