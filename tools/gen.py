#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like entries."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
sys.dont_write_bytecode = True
from propdata import PROPS
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(o) + "\n")
m = dict(version=1, setup_cmd="python3 lib/build.py --warm",
         checks=[], not_applicable=[])
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier=quick" % p["id"],
                                thorough_cmd="python3 check.py %s --tier=thorough" % p["id"],
                                evidence_file="evidence/%s.json" % p["id"],
                                technique=p["technique"], level="other", level_note=p["note"]))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
