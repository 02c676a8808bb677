#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (run by hand after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        anch = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
        if p.get("observe"):
            anch["observe_at"] = p["observe"]
        anch["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"], anchors=anch)) + "\n")
        if os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py")) and p["id"] not in NA:
            checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"],
                               thorough_cmd="./run.sh %s thorough" % p["id"],
                               technique=p["tech"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "the check is not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="property-based testing with Hypothesis against independent oracles; see DESIGN.md"),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
