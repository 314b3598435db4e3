#!/usr/bin/env python3
"""Self-test of the verification condition generator: every ENSURE whose text starts with T must be
discharged and every one starting with F must not (each F has a failing input)."""
import glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {"__file__": V + "/check.py", "__name__": "x"}
exec(compile(open(V + "/check.py").read().replace("\nsys.exit(main())", ""), "check.py", "exec"), g)
import tempfile
bad = 0
with tempfile.TemporaryDirectory() as tmp:
    b = g["Builder"](tmp)
    for p in sorted(glob.glob(V + "/tools/selftest/*.c")):
        u = g["Unit"](p)
        r = g["prove"](b, u)
        names = set(re.findall(r'ENSURE\("([^"]+)"', open(p).read()))
        failed = {o["name"] for o in r.get("failed", [])}
        wrong = {n for n in names if n[0] == "F" and n not in failed}
        weak = {n for n in names if n[0] == "T" and n in failed}
        other = failed - names
        print(os.path.basename(p), r["status"], r.get("why", ""), "UNSOUND:" if wrong else "", sorted(wrong), "not proved:" if weak else "", sorted(weak), sorted(other) if other else "")
        bad += len(wrong)
        if r["status"] not in ("unproved",): bad += 1
sys.exit(1 if bad else 0)
