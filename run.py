#!/usr/bin/env python3
"""Run one check:  run.py <property> [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

from engine import facts                      # noqa: E402
from engine.report import Report              # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    rep = Report(ROOT, a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    mod = importlib.import_module("checks." + a.property.lower())
    try:
        progs = facts.load()
    except facts.BuildError as e:
        print(str(e))
        return 3
    mod.check(progs, rep)
    return rep.finish(time.time() - t0)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
