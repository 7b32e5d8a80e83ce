#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py props.py && g++ --version && clang++ --version", "checks": [], "not_applicable": []}
for k in sorted(props.PROPS):
    s = props.PROPS[k]
    m["checks"].append({"property": k, "quick_cmd": "VERIF_TIER=quick ./run.py " + k, "thorough_cmd": "VERIF_TIER=thorough ./run.py " + k,
                        "evidence_file": "evidence/%s.json" % k, "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
for k, r in props.NOT_APPLICABLE.items(): m["not_applicable"].append({"property": k, "reason": r})
m["notes"] = "No hooks in /repo: all observation happens through element types, the allocation ledger (linker wrapping), raw object bytes and sanitizers."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
