#!/usr/bin/env python3
"""mutate.py [property...]: self-test. Applies each mutation of tools/mutations.json to a scratch copy of
/repo and runs the property's check against the copy. Prints caught / MISSED / broken."""
import json
import os
import shutil
import subprocess
import sys
import time

import mutlist

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/e57mut"   # copy of the library
C = "/tmp/e57mutv"  # copy of the checks, so that work on them can go on


def main():
    want = sys.argv[1:]
    muts = json.load(open(os.path.join(V, "tools", "mutations.json"))) + mutlist.ALL
    shutil.rmtree(C, ignore_errors=True)
    shutil.copytree(V, C, ignore=shutil.ignore_patterns(".git", ".cache", "evidence", ".out", "seeded"))
    for m in muts:
        if want and m["property"] not in want and m["id"] not in want:
            continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", W])
        ok = True
        for f, old, new in m["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) < 1 or (s.count(old) != 1 and not m.get("first")):
                print("%s: text found %d times in %s" % (m["id"], s.count(old), f))
                ok = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if not ok:
            continue
        t0 = time.time()
        env = dict(os.environ, E57_REPO=W)
        p = subprocess.run([sys.executable, os.path.join(C, "check.py"), m["property"]], cwd=C, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        hit = "VIOLATION property=" + m["property"] in p.stdout
        expect = m.get("expect", "caught")
        res = "caught" if p.returncode == 1 and hit else "quiet" if p.returncode == 0 else "BROKEN(%d)" % p.returncode
        why = [x for x in p.stdout.split("\n") if "VIOLATING" in x or "Error" in x][:1]
        print("%-14s %s %-8s %s %3ds %s" % (m["id"], m["property"], res, "" if res == expect else "<<<<<<<<", time.time() - t0, why[0][:200] if why else
                                             p.stdout[-300:] if res.startswith("BROKEN") else ""), flush=True)
    shutil.rmtree(W, ignore_errors=True)
    shutil.rmtree(C, ignore_errors=True)


main()
