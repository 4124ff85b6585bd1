#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py (one place to keep them in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["for_all"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(V, "specs", "p_%s.py" % p["id"].lower())), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3-vt engine/check.py %s" % p["id"],
                   "thorough_cmd": "python3-vt engine/check.py %s --thorough" % p["id"],
                   "technique": "contract-based deductive verification (own VC generator over the clang AST of the real functions; obligations discharged by z3/cvc5)",
                   "level": "proof", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3-vt engine/frontend.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: functions are extracted from the current working tree on every run. Repairs are the 'fix:' commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "claimed,", len(na), "not applicable")
