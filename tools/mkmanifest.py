"""Writes /verif/MANIFEST.json from checks.py (level notes) and the list of unclaimed properties."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(x) for x in open(H + "/properties.jsonl")]
NA = json.load(open(H + "/tools/not_applicable.json"))
checks = []
for p in props:
    if p["id"] not in CHECKS:
        continue
    c = CHECKS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"],
                       thorough_cmd="python3 run.py " + p["id"] + " thorough",
                       technique=c.get("technique", "TLA+ specification checked with TLC; recorded executions of the real code judged event by event by TLC (trace validation)"),
                       level="model_checking", level_note=c["level_note"]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in CHECKS]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Every check rebuilds what it needs (java override class, numba caches in a fresh directory) and imports dolo from /repo."),
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
