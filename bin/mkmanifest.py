#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py (run by hand; the result is committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, META
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 bin/check.py --selftest",
     "hooks": {"guard": "YACLIB_VERIF", "enable": "-DYACLIB_VERIF in CMAKE_CXX_FLAGS of the configurations in bin/plan.py (done by bin/check.py)",
               "source_commits": META["hook_commits"]},
     "checks": [], "not_applicable": []}
for p in props:
    if p in PLAN:
        d = PLAN[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": d["technique"], "level": d["level"],
                            "level_note": d["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "no check built yet (work in progress)"})
json.dump(m, open(VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
