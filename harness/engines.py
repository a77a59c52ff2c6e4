import json, os, tempfile
from common import *
import progs, gen_groups, gen_enums, gen_labels, gen_bad, conc

PBT = os.path.join(HERE, "pbt")
SYS = os.path.join(HERE, "sys")


def build_pbt():
    cargo_build(PBT)
    return os.path.join(TARGET, "debug", "pbt")


def build_sys():
    # a folder of its own: its .cargo/config.toml sets tokio_unstable
    cargo_build(SYS, e=env(CARGO_TARGET_DIR=os.path.join(TARGET, "sys")))
    return os.path.join(TARGET, "sys", "debug", "sys")


def pbt(pid, tier, seed, build=build_pbt, kind="pbt-run"):
    exe = build()
    r = Result()
    with tempfile.TemporaryDirectory() as tmp:
        evf = os.path.join(tmp, "ev.json")
        rc, out, err = run([exe, "run", pid, "--tier", tier, "--seed", str(seed), "--evidence", evf, "--replay-dir", REPLAYS], timeout=840 if tier == "quick" else 6 * 3600)
        if crashed(rc, err) or rc == 6:
            what = "an operation never returned" if rc == 6 else f"the process died (status {rc})"
            r.violation(pid, f"crash-{seed}", {"kind": kind, "tier": tier, "seed": seed, "message": err[-2000:]}, f"{pid}: {what}:\n{err[-2000:]}")
            r.evaluations = r.nontrivial = 2
            return r
        if rc not in (0, 1) or not os.path.exists(evf):
            raise CheckError(f"pbt ended with {rc}:\n{out[-2000:]}\n{err[-2000:]}")
        ev = json.load(open(evf))
    c = ev["coverage"]
    r.evaluations, r.nontrivial, r.rule, r.samples = c["evaluations"], c["distinct_nontrivial"], c["rule"], c["samples"]
    r.extra = {"arms": c["arms"]}
    lines = out.splitlines()
    for i, l in enumerate(lines):
        if l.startswith("FAIL "):
            path = l.split("replay=", 1)[1]
            body = []
            for m in lines[i + 1:]:
                if not m.startswith("  "):
                    break
                body.append(m)
            r.violations.append((path, "\n".join([l] + body)[:6000]))
        elif l.startswith("KNOWN "):
            sig, n = l[6:].rsplit(" (", 1)
            r.known[sig] = (int(n.split()[0]), save_replay(pid, f"known-{seed}", {"kind": kind, "tier": tier, "seed": seed, "message": sig}))
    if rc == 1 and not r.violations:
        raise CheckError(f"pbt failed without saying what:\n{out[-2000:]}")
    return r


def sys_(pid, tier, seed):
    return pbt(pid, tier, seed, build_sys, "sys-run")


GENERATORS = {"C14": gen_groups, "C15": gen_enums, "C16": gen_labels}


def programs(pid, tier, seed):
    return progs.explore(pid, tier, seed, GENERATORS[pid])


ENGINES = {f"C{i:02d}": [("pbt", pbt)] for i in range(1, 14)}
ENGINES.update({pid: [("programs", programs)] for pid in GENERATORS})
ENGINES["C17"] = [("programs", gen_bad.explore_bad)]

ENGINES["C23"] = [("pbt", pbt)]
ENGINES["C21"] = ENGINES["C22"] = [("sys", sys_)]
ENGINES["C24"] = [("pbt", pbt), ("sys", sys_)]
ENGINES["C25"] = [("pbt", pbt), ("sys", sys_)]

for pid in ("C18", "C19", "C20"):
    ENGINES[pid] = [("native", conc.native), ("miri", conc.miri)]


def setup():
    build_pbt()
    build_sys()
    conc.build_conc()
    progs.Rustc()


def replay(path):
    v = json.load(open(path))
    kind = v["kind"]
    if kind in ("pbt", "sys"):
        exe = build_pbt() if kind == "pbt" else build_sys()
        rc, out, err = run([exe, "replay", path])
    elif kind in ("pbt-run", "sys-run"):
        exe = build_pbt() if kind == "pbt-run" else build_sys()
        rc, out, err = run([exe, "run", v["property"], "--tier", v["tier"], "--seed", str(v["seed"]), "--replay-dir", REPLAYS])
    elif kind == "prog":
        return progs.replay_spec(GENERATORS[v["property"]], v["spec"])
    elif kind == "bad":
        return gen_bad.replay_pair(v["pair"])
    elif kind == "conc":
        return conc.replay_native(v)
    elif kind == "conc-miri":
        return conc.replay_miri(v)
    else:
        raise CheckError(f"unknown kind of replay {kind}")
    print(out + err)
    return 1 if rc in (1, 6) or crashed(rc, err) else 0 if rc == 0 else 3
