"""tools/coverage/<id>.json: the figures of the last quick run, from the evidence files"""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(H + "/tools/coverage", exist_ok=True)
for f in sorted(glob.glob(H + "/evidence/*.json")):
    d = json.load(open(f))
    if d["tier"] != "quick" or d["violations"]:
        print("skipped", f, d["tier"], d["violations"]); continue
    c = d["coverage"]
    n = lambda x: sum(x)
    json.dump(dict(p=d["property"], design="%d (%d)" % (len(c["design_checks"]), n(x["distinct"] for x in c["design_checks"])),
                   beh=n(x["behaviours"] for x in c.get("behaviours_replayed", [])), ev=c["events_judged"],
                   cl=n(c["clause_evaluations"].values()), wall=round(d["wall_s"])), open(H + "/tools/coverage/%s.json" % d["property"], "w"))
