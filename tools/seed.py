#!/usr/bin/env python3
"""Development aid: store a planted bug. seed.py ID PROP FILE 'old' 'new' 'needs' 'what' 'src1 src2 ...' < demo.c
Applies the replacement in a scratch copy (/tmp/r), checks that the demo tells both trees apart, runs the check on the changed copy."""
import os, subprocess, sys, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, PROP, F, OLD, NEW, NEEDS, WHAT, SRC = sys.argv[1:9]
R = "/tmp/r"
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(R): run("cp -a /repo /tmp/r")
run("git -C /tmp/r fetch -q /repo HEAD && git -C /tmp/r checkout -q -f FETCH_HEAD")
d = "%s/seeded/%s" % (V, ID)
os.makedirs(d, exist_ok=True)
open(d + "/demo.c", "w").write(sys.stdin.read())
srcs = " ".join("$M/" + s for s in SRC.split())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# compiles the sources under test with demo.c and runs it (cwd: the repository)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
M=src/modules
gcc -w -g -O1 -fno-pie -no-pie -ffunction-sections -I$M $(gdal-config --cflags) -I/usr/include/python3.12 "$D/demo.c" %s \\
  -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -lm %s -o "$T/demo" && "$T/demo"
rc=$?
rm -rf "$T"
exit $rc
''' % (srcs, os.environ.get("LIBS", "")))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": WHAT}, open(d + "/meta.json", "w"), indent=1)
r = run("bash %s/demo.sh" % d, cwd=R)
print("unchanged:", r.returncode, r.stdout[-800:] if r.returncode else "")
p = R + "/src/modules/" + F
t = open(p, newline="").read()
old, new = OLD, NEW
if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
if t.count(old) != 1: print("pattern count", t.count(old)); sys.exit(1)
open(p, "w", newline="").write(t.replace(old, new))
open(d + "/patch.diff", "w").write(run("git -C /tmp/r diff").stdout)
r2 = run("bash %s/demo.sh" % d, cwd=R)
print("patched:", r2.returncode, r2.stdout[-300:])
r3 = run("VERIF_REPO=/tmp/r timeout 900 python3 %s/check.py %s" % (V, PROP))
print(r3.stdout[-1500:], "exit", r3.returncode)
run("git -C /tmp/r checkout -q -f")
if r.returncode or not r2.returncode: print("NOT A VALID PLANTED BUG")
