#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

TECH = {
    "kani": "contract-based deductive verification: pre/postconditions over the real code compiled from /repo, obligations discharged by Kani/CBMC",
    "verus": "contract-based deductive verification: functions extracted mechanically from /repo on every run, obligations discharged by Verus/Z3; entry-point contracts by Kani/CBMC",
}

def pline(i, p):
    d = {"id": i, "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["text"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
    return json.dumps(d)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for i, p in list(PROPS.items()) + [(i, n) for i, n in NOT_APPLICABLE.items()]:
        f.write(pline(i, p) + "\n")

checks = []
for i, p in PROPS.items():
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": TECH[p.get("tech", "kani")],
        "level": p["level"],
        "level_note": p.get("level_note") or ("bounded: " + p["bounds"]),
        "evidence_file": "evidence/%s.json" % i,
    })
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks: the harness crates call the public API of the crates in /repo", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": n["reason"]} for i, n in NOT_APPLICABLE.items()],
     "notes": "check.py builds the harness crates under kani/ against /repo's working tree on every run (build output in .work, ignored by git)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
