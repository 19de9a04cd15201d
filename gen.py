#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from registry.py."""
import json, os
from registry import CHECKS
import registry
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for i in sorted(CHECKS):
        c = CHECKS[i]
        a = {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]],
             "observe_at": c["observe"], "hook_needed": False}
        if c.get("state"): a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in c["state"]]
        assert len(c["title"]) <= 80, (i, len(c["title"]))
        f.write(json.dumps({"id": i, "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["qtext"]}, "why_tests_cant": c["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i,
                 "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": CHECKS[i]["technique"],
                 "level": CHECKS[i]["level"], "level_note": CHECKS[i]["level_note"]} for i in sorted(CHECKS)],
     "not_applicable": getattr(registry, "NOT_APPLICABLE", [])}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
