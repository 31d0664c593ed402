#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
V = os.path.dirname(os.path.abspath(__file__))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["q"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
        technique="bounded symbolic execution of LLVM IR compiled from /repo with SMT (Z3): branches, memory accesses and "
                  "assertions decided by the solver; counterexamples replayed on the native build",
        level="model_checking", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="bash ./setup.sh", checks=checks, not_applicable=na),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
