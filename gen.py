#!/usr/bin/env python3
import json
from props import P
from checks import CHECKS
ids = [d["id"] for d in P]
assert len(set(ids)) == len(ids)
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
with open("properties.jsonl", "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        assert d["statement"].replace("e.g.", "").count(". ") <= 2, (d["id"], "sentences")
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d in P:
    c = CHECKS.get(d["id"])
    if c:
        checks.append(dict(property=d["id"], quick_cmd="python3 run.py " + d["id"],
                           thorough_cmd="VERIF_TIER=thorough python3 run.py " + d["id"],
                           technique=c["technique"], level=c["level"],
                           level_note=c["level_note"] + " Bounds: " + c["bounds"] + "."))
    else:
        na.append(dict(property=d["id"], reason=d.get("na", "the check is not built yet")))
m = dict(version=1, setup_cmd="python3 -m py_compile run.py checks.py", checks=checks, not_applicable=na)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
