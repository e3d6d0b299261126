#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
from tools.props import PROPS, NOT_APPLICABLE

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                              "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"],
                 "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"],
                 "level": p.get("level", "exploration"),
                 "level_note": p["note"]} for p in PROPS if p["id"] in CHECKS],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: every check drives the public C API of a library built from /repo/source "
              "(plain, or with ASan+UBSan). See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
assert set(CHECKS) == set(ids), set(CHECKS) ^ set(ids)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    for a in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", a)), a
