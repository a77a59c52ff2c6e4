"""Writes MANIFEST.json from the engines that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import engines
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in engines.ENGINES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks use only public API. Everything is rebuilt from /repo's working tree by cargo path dependencies."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
