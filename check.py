#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N]   decide one property
   check.py --replay FILE                              run a saved reproduction again
   check.py --setup                                    build what the checks share

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: an error of
the check (build failure, hang, time-out)."""
import argparse, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
from common import CheckError, Result, known_findings  # noqa: E402
import engines  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            engines.setup()
            return 0
        if a.replay:
            return engines.replay(a.replay)
        return check(a.id, a.tier, a.seed)
    except CheckError as e:
        print(f"CHECK ERROR: {e}", file=sys.stderr)
        return 3


def check(pid, tier, seed):
    if pid not in engines.ENGINES:
        raise CheckError(f"no check for {pid}")
    t0 = time.time()
    listed = known_findings(pid)
    total = Result()
    parts = []
    for name, run in engines.ENGINES[pid]:
        t1 = time.time()
        r = run(pid, tier, seed)
        parts.append((name, r, time.time() - t1))
        total.merge(r)
    violations = list(total.violations)
    known = {}
    for sig, (n, path) in total.known.items():
        if sig in listed:
            known[sig] = n
        else:
            violations.append((path, f"{sig} ({n} cases)"))
    coverage = {
        "evaluations": total.evaluations,
        "distinct_nontrivial": total.nontrivial,
        "rule": " | ".join(r.rule for _, r, _ in parts if r.rule),
        "samples": total.samples[:30],
        "engines": {name: {"wall_s": round(w, 2), "evaluations": r.evaluations, "distinct_nontrivial": r.nontrivial, **r.extra} for name, r, w in parts},
        "known_findings_seen": known,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for sig in known:
        print(f"KNOWN-FINDING: property={pid} {sig}")
    for path, msg in violations:
        print(msg)
        print(f"VIOLATION property={pid} replay={path}")
    if not violations:
        if total.evaluations == 0 or total.nontrivial < 2:
            raise CheckError(f"{pid} explored nothing")
        print(f"{pid}: held on {total.evaluations} cases ({total.nontrivial} distinct and non-trivial), {ev['wall_s']} s")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
