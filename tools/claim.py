#!/usr/bin/env python3
"""tools/claim.py C08 C09 ...: claim properties (moves them from not_applicable.json to meta.json) and rewrite MANIFEST.json"""
import json, os, sys, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(R + "/vc/meta.json")); n = json.load(open(R + "/vc/not_applicable.json"))
for p in sys.argv[1:]:
    m.setdefault(p, {"level": "proof", "note": "contracts"}); n.pop(p, None)
json.dump(m, open(R + "/vc/meta.json", "w"), indent=1); json.dump(n, open(R + "/vc/not_applicable.json", "w"), indent=1)
runpy.run_path(R + "/tools/mkmanifest.py")
