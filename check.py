#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the machinery failed."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core  # noqa: E402

MODULES = ["p_transfer", "p_tree", "p_names", "p_life", "p_session", "p_blob", "p_convert", "p_layout", "p_pages", "p_open", "p_commit", "p_simple", "p_foreign"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    checks = {}
    for m in MODULES:
        checks.update(importlib.import_module(m).CHECKS)
    ck = core.Check(a.property, a.tier, a.seed)
    try:
        return checks[a.property](ck)
    except core.HarnessError as e:
        print("ERROR (no verdict):", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ck.scratch.remove()


if __name__ == "__main__":
    sys.exit(main())
