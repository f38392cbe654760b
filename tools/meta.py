#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from catalog import PROPS
import plans

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] not in plans.PLANS:
        na.append(dict(property=p["id"], reason="the check is not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                       thorough_cmd="python3 check.py %s thorough" % p["id"],
                       technique="TLA+ specification checked with TLC; explored behaviours replayed into the library, recorded traces validated by TLC",
                       level="model_checking", level_note=p["note"] + " Trusts TLC, the driver's logging and the compiler's sanitizers; bounded by the model's constants and the seeded samples."))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(checks), "checks", [x["property"] for x in na])
