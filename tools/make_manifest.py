#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/registry.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "contracts"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.PROPS:
        s = registry.PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s" % p,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
                       "technique": s.get("technique", "contract-based deductive verification of the real C++ (clang AST -> weakest-precondition-style obligations -> z3), bounded harness as stand-in and replay"),
                       "level": s.get("level", "proof"), "level_note": s["note"]})
    else:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt cyvc/build.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
