"""Random concurrent histories (C18, C19, C20), run natively with many repetitions and under Miri with seeded
schedules and weak memory, judged by harness/conc."""
import os, random, re, time
from common import *

CONC = os.path.join(HERE, "conc")
SETS_DENSE = ["enum", "two", "clash"]
SETS_ALL = ["enum", "two", "clash", "grow", "rodeo"]
MIRI_TARGET = os.path.join(TARGET, "miri")


def build_conc():
    cargo_build(CONC)
    return os.path.join(TARGET, "debug", "conc")


# ---- plans ----

def show(p):
    t = "|".join(" ".join(o + (str(k) if o in "ulgxrt" else "") + (f"*{n}" if o in "ulgw" else "") for o, k, n in ops) for ops in p["T"])
    return ";".join(f"{k}={p[k]}" for k in ("kind", "store", "set", "log", "dec", "rounds", "spin", "seed")) + ";T=" + t


def limit(threads):
    return (1 << min(48 // max(threads, 3), 12)) - 1


def gen_plan(rng, pid, small):
    """small: for Miri."""
    kind = "hist" if pid == "C19" else rng.choice(["counter", "gauge", "float", "hist"])
    p = {"kind": kind, "log": rng.randint(0, 1), "dec": int(kind in ("gauge", "float") and rng.random() < .6), "seed": rng.randrange(1 << 32)}
    sets = [s for s in SETS_ALL if s != "rodeo" or not small]
    if pid == "C20":
        p["store"] = rng.choice(["sparse", "sparse", "sparse", "default"])
        p["set"] = rng.choice(["grow"] if small else ["grow", "rodeo"]) if p["store"] == "default" else rng.choice(sets)
    else:
        p["store"] = rng.choice(["single", "dense", "dense", "sparse", "sparse", "sparse", "default"])
        p["set"] = rng.choice(SETS_DENSE if p["store"] == "dense" else sets)
    n = rng.choice([2, 2, 3]) if small else rng.choice([2, 2, 3, 3, 3, 4, 4, 6, 8])
    keys = [0] if p["store"] == "single" else rng.sample(range(8), rng.choice([1, 1, 2] if small else [1, 1, 2, 3, 8]))
    shape = rng.choice(["herd", "mixed"] if small else ["herd", "hammer", "mixed", "mixed"])
    setmode = pid == "C18" and kind in ("gauge", "float") and rng.random() < .2
    p["spin"] = 0 if small else rng.choice([0, 0, 20, 100, 400])
    left = {}
    T = []
    for t in range(n):
        role = rng.choice(["update", "scrape", "any", "any"]) if not (t == 0) else "update"
        if pid == "C20" and t == 1:
            role = "remove"
        if pid == "C19" and t == 1:
            role = "scrape"
        ops = []
        length = rng.randint(1, 3) if small else {"herd": rng.randint(1, 8), "hammer": rng.randint(1, 3), "mixed": rng.randint(2, 25)}[shape]
        for i in range(length):
            r = rng.random()
            w = {"update": "uuuullgg", "scrape": "sssssc", "any": "uuuullggssxcw", "remove": "rrruusg"}[role]
            if pid == "C20" and role == "any":
                w += "rrr"
            if pid == "C19":
                w = w.replace("x", "s").replace("c", "s")
            o = rng.choice(w)
            if shape == "herd" and i == 0 and role in ("update", "any"):
                o = rng.choice("uuulg")
            k = rng.choice(keys)
            if setmode and o in "ulg":
                o = "t"
            m = 1
            if o in "ulg":
                m = rng.choice([1, 1, 2] if small else {"herd": [1, 1, 2], "hammer": [50, 300, 1000], "mixed": [1, 1, 3, 10, 40]}[shape])
                if o == "g" and rng.random() < .1:
                    m = 0
                m = min(m, limit(n) - left.get((t, k), 0))
                left[t, k] = left.get((t, k), 0) + m
            if o == "w":
                m = rng.randint(1, 2000)
            ops.append((o, k, m))
        T.append(ops)
    p["T"] = T
    work = sum(m if o in "ulg" else 10 if o == "s" else 1 for ops in T for o, _, m in ops)
    p["rounds"] = 1 if small else max(5, min(400, 60000 // max(work, 1)))
    return p


def shared(p):
    """Do two threads touch a same metric, one of them changing it?"""
    by = {}
    for t, ops in enumerate(p["T"]):
        for o, k, n in ops:
            for key in (range(8) if o in "sc" else [k]):
                by.setdefault(key, [set(), set()])
                by[key][0].add(t)
                if o in "ulgtr":
                    by[key][1].add(t)
    return any(w and len(a) > 1 for a, w in by.values())


# ---- native ----

def run_native(exe, plans, par, timeout):
    rc, out, err = run([exe, "run", str(par)], stdin="\n".join(map(show, plans)) + "\n", timeout=timeout)
    res = {}
    stats = {}
    for l in out.splitlines():
        w = l.split(" ", 2)
        if w[0] == "ok":
            res[int(w[1])] = None
            for x in w[2].split():
                k, v = x.split("=")
                stats[k] = stats.get(k, 0) + int(v)
        elif w[0] == "FAIL":
            res[int(w[1])] = w[2].replace("\\n", "\n")
        elif w[0] == "DEADLOCK":
            for i in re.findall(r"\d+", l):
                res[int(i)] = "the threads of the plan wait for each other forever"
    if rc not in (0, 7):
        if crashed(rc, err):
            for i in range(len(plans)):
                if i not in res:
                    res[i] = f"the process died (status {rc}): {err[-1500:]}"
                    break
        else:
            raise CheckError(f"conc ended with {rc}: {err[-2000:]}")
    return res, stats


def fails(exe, p, tries, timeout=600):
    plans = [dict(p, seed=p["seed"] + i) for i in range(tries)]
    res, _ = run_native(exe, plans, 2, timeout)
    for i in range(tries):
        if res.get(i):
            return plans[i], res[i]
    return None


def reduce(p, test, budget):
    """Drop threads, then ops, then lower repetitions, while the test still fails."""
    end = time.time() + budget
    best = p
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = []
        T = best["T"]
        cands += [dict(best, T=T[:i] + T[i + 1:]) for i in range(len(T)) if len(T) > 1]
        for i, ops in enumerate(T):
            if len(ops) > 3:
                h = len(ops) // 2
                cands += [dict(best, T=T[:i] + [ops[:h]] + T[i + 1:]), dict(best, T=T[:i] + [ops[h:]] + T[i + 1:])]
            cands += [dict(best, T=T[:i] + [ops[:j] + ops[j + 1:]] + T[i + 1:]) for j in range(len(ops)) if len(ops) > 1]
            cands += [dict(best, T=T[:i] + [ops[:j] + [(o, k, n // 2)] + ops[j + 1:]] + T[i + 1:]) for j, (o, k, n) in enumerate(ops) if n > 1]
        if best["dec"]:
            cands.append(dict(best, dec=0))
        for c in cands:
            if time.time() > end:
                break
            r = test(c)
            if r:
                best = r[0]
                best_msg = r[1]
                progress = True
                break
    return best


def native(pid, tier, seed):
    exe = build_conc()
    r = Result()
    r.rule = "native: a plan counts as non-trivial when at least two threads touch a same metric and one of them changes it"
    rng = random.Random(f"{pid}-{seed}")
    budget = {"quick": 45, "thorough": 1500}[tier]
    end = time.time() + budget
    stats = {}
    seen = set()
    plans_run = 0
    while time.time() < end:
        plans = [gen_plan(rng, pid, False) for _ in range(60)]
        res, st = run_native(exe, plans, 3, 800)
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        for i, p in enumerate(plans):
            if i not in res:
                continue
            plans_run += 1
            r.evaluations += p["rounds"]
            if shared(p):
                seen.add(show(dict(p, seed=0)))
            if len(r.samples) < 10:
                r.samples.append(show(p))
        bad = [i for i in res if res[i]]
        if bad:
            i = min(bad, key=lambda i: len(show(plans[i])))
            p, msg = plans[i], res[i]
            p = dict(p, rounds=min(400, p["rounds"] * 4))
            again = fails(exe, p, 10)
            if again:
                p, msg = again
                tries = 10
                small = reduce(p, lambda c: fails(exe, c, tries), 60)
                last = fails(exe, small, 20)
                if last:
                    p, msg = last
            r.violation(pid, f"native-{seed}", {"kind": "conc", "plan": show(p), "message": msg}, f"{pid}: {msg}\n  plan {show(p)}")
            break
    r.nontrivial = len(seen)
    r.extra = {"plans": plans_run, "rounds": r.evaluations, **stats}
    return r


# ---- Miri ----

def miri_run(plans, seeds, extra=(), timeout=800):
    flags = f"-Zmiri-many-seeds={seeds[0]}..{seeds[1]} -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-disable-validation " + " ".join(extra)
    e = env(CARGO_TARGET_DIR=MIRI_TARGET, MIRIFLAGS=flags)
    return run(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--no-default-features", "--", "plan", *plans], cwd=CONC, e=e, timeout=timeout)


def miri_verdict(rc, out, err):
    """-> None, or (seed, message)"""
    if rc == 0:
        return None
    m = re.search(r"FAILING SEED: (\d+)", err)
    f = re.search(r"^FAIL \d+ (.*)$", out, re.M)
    u = re.search(r"^error: (.*)$", err, re.M)
    if f:
        msg = f[1].replace("\\n", "\n")
    elif u and re.search("Undefined Behavior|deadlock|data race|Data race|memory leak|abnormal termination", u[1]):
        msg = u[1]
    else:
        raise CheckError(f"Miri ended with {rc}:\n{out[-1000:]}\n{err[-3000:]}")
    return (int(m[1]) if m else 0, msg)


def miri(pid, tier, seed):
    r = Result()
    r.rule = "Miri: as above, per plan"
    e = env(CARGO_TARGET_DIR=MIRI_TARGET)
    rc, out, err = run(["cargo", "+nightly", "miri", "setup", "--quiet"], cwd=CONC, e=e, timeout=600)
    if rc != 0:
        r.extra = {"skipped": "no Miri sysroot: " + err[-500:]}
        return r
    rng = random.Random(f"{pid}-miri-{seed}")
    batches, per, nseeds = {"quick": (4, 3, 16), "thorough": (40, 4, 64)}[tier]
    budget = {"quick": 110, "thorough": 3600}[tier]
    end = time.time() + budget
    seen = set()
    execs = 0
    for b in range(batches):
        if b and time.time() > end:
            break
        plans = [gen_plan(rng, pid, True) for _ in range(per)]
        while not any(map(shared, plans)):
            plans = [gen_plan(rng, pid, True) for _ in range(per)]
        rate = rng.choice(["0.01", "0.03", "0.1"])
        lo = rng.randrange(1 << 20)
        v = miri_verdict(*miri_run(list(map(show, plans)), (lo, lo + nseeds), [f"-Zmiri-preemption-rate={rate}"]))
        execs += per * nseeds
        seen |= {show(dict(p, seed=0)) for p in plans if shared(p)}
        r.samples += [f"Miri, seeds {lo}..{lo + nseeds}, preemption {rate}: {show(p)}" for p in plans[:1]]
        if v:
            def test(c, s=(lo, lo + nseeds)):
                w = miri_verdict(*miri_run([show(c)], s, [f"-Zmiri-preemption-rate={rate}"]))
                return (c, w[1], w[0]) if w else None
            found = next(((p, t) for p in plans for t in [test(p)] if t), None)
            if found:
                p, (_, msg, s) = found
                small = reduce(p, test, 60)
                t = test(small)
                if t:
                    p, msg, s = t
                plans = [p]
            else:
                s, msg = v
            replay = {"kind": "conc-miri", "plans": list(map(show, plans)), "seeds": [s, s + 1] if found else [lo, lo + nseeds], "rate": rate, "message": msg}
            r.violation(pid, f"miri-{seed}", replay, f"{pid}: under Miri: {msg}\n  plans " + "\n        ".join(map(show, plans)))
            break
    r.evaluations = execs
    r.nontrivial = len(seen)
    r.extra = {"executions": execs}
    return r


def replay_native(v):
    exe = build_conc()
    rc, out, err = run([exe, "run", "2"], stdin="\n".join([re.sub(r"seed=\d+", lambda m: f"seed={int(m[0][5:]) + i}", v["plan"]) for i in range(40)]) + "\n")
    bad = [l for l in out.splitlines() if not l.startswith("ok")]
    print("\n".join(bad[:3]) or "held in 40 repetitions")
    return 1 if bad or rc else 0


def replay_miri(v):
    w = miri_verdict(*miri_run(v["plans"], v["seeds"], [f"-Zmiri-preemption-rate={v['rate']}"]))
    print(w or "held")
    return 1 if w else 0
