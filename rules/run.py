#!/usr/bin/env python3
"""run.py <property id>... | all | setup"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, pkgutil
from common import main
import facts

RULES = {}


def register():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
    for m in sorted(os.listdir(d)):
        if m.endswith(".py") and not m.startswith("_"):
            mod = importlib.import_module("props." + m[:-3])
            for pid, fn in getattr(mod, "PROPS", {}).items():
                RULES[pid] = fn


if __name__ == "__main__":
    args = sys.argv[1:]
    if args == ["setup"]:
        facts.build_driver()
        files, rc, out = facts.ensure_facts()
        print("facts for %d crates" % len(files))
        if rc != 0:
            print(out[-3000:])
        sys.exit(0)
    register()
    ids = sorted(RULES) if args == ["all"] else args
    F = facts.Facts() if len(ids) > 1 else None
    worst = 0
    for i in ids:
        if i not in RULES:
            print("no such property", i)
            sys.exit(2)
        worst = max(worst, main(i, RULES[i], F))
    sys.exit(worst)
