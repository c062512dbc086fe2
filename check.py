#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property of /verif/properties.jsonl from the current source of the
repository.  Exit status: 0 holds, 1 violated, 2 the analysis could not be
carried out."""
import argparse, importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import lib
from rules.registry import PROPS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    if a.property not in PROPS:
        print("no check for property %s" % a.property)
        return 2
    title, rules, least = PROPS[a.property]
    t0 = time.time()
    lib.DEEP = 1 if a.tier == "thorough" else 0
    R = lib.Result(a.property, title)
    broken = []
    try:
        P = lib.program(a.repo)
    except lib.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.property, e))
        return 2
    for mod, fn in rules:
        # one rule that cannot be carried out must not hide what the others find
        try:
            getattr(importlib.import_module("rules." + mod), fn)(R, P)
        except lib.Broken as e:
            broken.append("%s: %s" % (fn, e))
        except Exception:
            broken.append("%s: %s" % (fn, traceback.format_exc(limit=-3)))
    rc = lib.finish(R, a.tier, t0, least if not broken else 0)
    if broken and rc == 0:
        for b in broken:
            print("ANALYSIS-BROKEN property=%s %s" % (a.property, b))
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
