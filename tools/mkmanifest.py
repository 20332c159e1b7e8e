#!/usr/bin/env python3
"""writes MANIFEST.json from vc/meta.json (claimed properties) and the list of unclaimed ones"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(os.path.join(R, "vc/meta.json")))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
na = json.load(open(os.path.join(R, "vc/not_applicable.json")))
checks = []
for p in props:
    i = p["id"]
    if i in na: continue
    m = meta[i]
    checks.append(dict(property=i, quick_cmd=f"python3-vt vc/check.py {i} quick", thorough_cmd=f"python3-vt vc/check.py {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=m.get("technique", "contract-based deductive verification of the real code (LLVM IR verification conditions, z3/cvc5), with a bounded stand-in on the real library for functions out of reach"),
                       level=m["level"], level_note=m["note"]))
json.dump(dict(version=1, setup_cmd="python3-vt vc/setup.py", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
               notes="No hooks are needed: the checks read private members through -fno-access-control in translation units of their own."), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
