"""Writes MANIFEST.json from properties.jsonl and sim/run/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim/run")
import plan
NOTE = "seeded search over simulated executions of the real bindings against a simulated engine (deterministic scheduler, fault injection); oracles: %s. Not exhaustive: bounded by the number of seeds; the engine behind clingo.h is a model"
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in plan.PLAN:
        checks.append({"property": p, "quick_cmd": "python3 sim/run/check.py %s quick" % p, "thorough_cmd": "python3 sim/run/check.py %s thorough" % p,
                       "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTE % plan.ORACLE[p]})
na = [{"property": json.loads(l)["id"], "reason": plan.NOT.get(json.loads(l)["id"], "under construction")} for l in open(V + "/properties.jsonl") if json.loads(l)["id"] not in plan.PLAN]
json.dump({"version": 1, "setup_cmd": "python3 sim/run/build.py", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: the C interface (clingo.h) is the seam."}, open(V + "/MANIFEST.json", "w"), indent=1)
