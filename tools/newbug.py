#!/usr/bin/env python3
"""newbug.py: create seeded/<id> from a python description (id, property, file, old, new, needs, breaks, demo)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in edits:
        p = os.path.join(t, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(t)
    shutil.copy(os.path.join(V, "tools", "demo.sh"), d + "/demo.sh")
    open(d + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
