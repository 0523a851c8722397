#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, props.py and the reasons below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        h = c["harness"]
        checks.append(dict(
            property=i,
            quick_cmd=f"VERIF_TIER=quick python3 /verif/check.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough python3 /verif/check.py {i}",
            technique="contract-based deductive verification: Verus on functions extracted mechanically from the current tree (units: "
            + ", ".join(c["units"]) + ")" + ("; a failed obligation is replayed against the real code by a bounded search" if h else ""),
            level=c.get("level", "proof"),
            level_note=c["note"],
        ))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 /verif/check.py --setup", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks in /repo: only fix: commits."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
