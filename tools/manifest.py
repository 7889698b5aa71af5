#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of checks that exist."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "harness"))
import check  # noqa: E402

done = {}
for m in check.MODULES:
    mod = importlib.import_module(m)
    for p in mod.CHECKS:
        done[p] = getattr(mod, "LEVEL_NOTES", {}).get(p, "")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
DEFAULT = ("TLC explores the specification exhaustively in a small configuration; executions of the real code are "
           "accepted or rejected by TLC as behaviours of the same specification")
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in done:
        man["checks"].append({
            "property": i,
            "quick_cmd": "python3 /verif/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
            "technique": "TLA+ specification checked with TLC, bound to the code by TLC trace validation of recorded executions",
            "level": "model_checking",
            "level_note": done[i] or DEFAULT,
            "evidence_file": "/verif/evidence/%s.json" % i})
    else:
        man["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks")
