#!/usr/bin/env python3
"""Builds every monitor in every build configuration (offline), so that checks only rebuild what
changed. A build that fails here is reported by the check that needs it."""
import os, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check

def main():
    need = {}
    for spec in check.CHECKS.values():
        for r in spec["runs"]:
            if "quick" in r.get("tiers", ["quick", "thorough"]):
                need.setdefault(r["config"], set()).add(r["bin"])
    os.makedirs(check.EVID, exist_ok=True)
    t0 = time.time()
    def one(c):
        log = os.path.join(check.EVID, f"setup.{c}.log")
        ok, _ = check.build(c, sorted(need[c]), log)
        return c, ok, log
    with ThreadPoolExecutor(max_workers=4) as ex:
        for c, ok, log in ex.map(one, need):
            print(f"configuration {c}: {'built' if ok else 'FAILED'} ({time.time()-t0:.0f} s)")
            if not ok:
                print(check.tail(log))

main()
