#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from proplist.py."""
import json, os
from proplist import P
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for q in P:
    assert len(q["title"]) <= 80, q["id"]
    if q["na"]:
        na.append(dict(property=q["id"], reason=q["na"]))
        continue
    assert q["id"] in PROPS, q["id"]
    assert PROPS[q["id"]].get("level", "proof") == q["level"], q["id"]
    checks.append(dict(property=q["id"], quick_cmd=f"bin/check {q['id']}", thorough_cmd=f"bin/check {q['id']} --tier thorough",
                       technique=q["technique"], level=q["level"], level_note=q["note"]))
assert {c["property"] for c in checks} == set(PROPS), set(PROPS) ^ {c["property"] for c in checks}
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: harness modules are appended to a throwaway copy of the sources made on every run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
