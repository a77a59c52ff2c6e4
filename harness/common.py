import json, os, re, signal, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")


class CheckError(Exception):
    pass


class Result:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.violations = []  # (replay path, message)
        self.known = {}  # signature -> (cases, replay path)

    def merge(self, r):
        self.evaluations += r.evaluations
        self.nontrivial += r.nontrivial
        self.samples += r.samples
        self.violations += r.violations
        for k, (n, p) in r.known.items():
            self.known[k] = (self.known.get(k, (0, p))[0] + n, p)

    def violation(self, pid, name, replay, msg):
        """Save a reproduction and record the violation."""
        self.violations.append((save_replay(pid, name, replay), msg))


def save_replay(pid, name, replay):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, **replay}, f, indent=1)
    return path


def known_findings(pid):
    out = set()
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (.*)$", line.rstrip("\n"))
            if m and m[1] == pid:
                out.add(m[2].split(" -- ")[0].strip())
    return out


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS"):
            del e[k]
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e.update(kw)
    return e


def run(cmd, cwd=None, e=None, timeout=800, stdin=None):
    """-> (returncode, stdout, stderr); a time-out is an error of the check."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise CheckError(f"timed out after {timeout} s: {' '.join(cmd)[:200]}")
    return p.returncode, out, err


def cargo_build(crate, e=None, args=(), cargo=("cargo",), sub="build", timeout=800):
    rc, out, err = run([*cargo, sub, "--offline", "--quiet", *args], cwd=crate, e=e, timeout=timeout)
    if rc != 0:
        raise CheckError(f"building {crate} failed:\n{err[-4000:]}")


def crashed(rc, err):
    """Died of a memory error or abort (not of running out of memory, or of a kill)."""
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
        return True
    return rc == -signal.SIGABRT and ("memory allocation of" not in err or "A SINGLE THREAD HOLDS OVER" in err)
