"""Write MANIFEST.json.  Level: proof where every deciding contract is discharged without a bound."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys

sys.path.insert(0, os.path.join(V, "tools"))
from levels import PROOF, OTHER, BOUNDED, NA

PY = "python3-vt"
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid in PROOF:
        level, tech, note = "proof", "contracts on the real functions, discharged by symbolic execution with loop invariants and z3", PROOF[pid]
    elif pid in OTHER:
        level, tech, note = "other", "contracts on the real functions, discharged by z3; parts bounded in shape", OTHER[pid]
    elif pid in BOUNDED:
        level, tech, note = "exploration", "bounded stand-in for contracts: randomised runs of the real code against an oracle", BOUNDED[pid]
    else:
        assert pid in NA, pid
        continue
    checks.append({"property": pid, "quick_cmd": f"{PY} check.py {pid} --tier quick", "thorough_cmd": f"{PY} check.py {pid} --tier thorough", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", {k: sum(c["level"] == k for c in checks) for k in {c["level"] for c in checks}})
