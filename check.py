#!/usr/bin/env python3
"""Decides one property: check.py C07
Every contract unit of the property (contracts/*.c with '//@ property: C07') is compiled together
with the current sources of /repo and every proof obligation is discharged by the deductive back
end (gvc). An obligation that cannot be discharged is a violation; a failing input is searched with
the same contract on the real code (native search, bounded CBMC) and stored as the replay."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
C = os.path.join(V, "contracts")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
PY = shutil.which("python3-vt") or "python3"
JOBS = min(8, os.cpu_count() or 4)
GDAL = ["-I/usr/include/gdal"]
try: GDAL = subprocess.run(["gdal-config", "--cflags"], stdout=subprocess.PIPE, text=True).stdout.split() or GDAL
except OSError: pass
INC = ["-I" + REPO + "/src/modules", "-I" + C] + GDAL + ["-I/usr/include", "-I/usr/include/python3.12"]
PROVE_MAX = 420 if TIER == "quick" else 1200
FIND_S = 25 if TIER == "quick" else 120
CBMC_S = 150 if TIER == "quick" else 900

class BuildError(Exception): pass

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)

class Unit:
    def __init__(s, path, var=None):
        s.path, s.name = path, os.path.basename(path)[:-2]
        txt = open(path).read()
        # one unit per line '//@ variant: LABEL DEFINE...'
        s.variants = [l.split() for l in re.findall(r"^//@ variant:(.*)$", txt, re.M)]
        f = lambda k: [x for l in re.findall(r"^//@ %s:(.*)$" % k, txt, re.M) for x in l.split()]
        s.props, s.src, s.fn, s.opt = f("property"), f("src"), f("fn"), f("opt")
        s.defs = f("def")
        s.unwind = int((f("unwind") or ["6"])[0])
        s.bounded = bool(re.search(r"^//@ bounded", txt, re.M))
        s.nocbmc = bool(re.search(r"^//@ nocbmc", txt, re.M))
        for h in re.findall(r'^#include "(\w+\.h)"', txt, re.M):
            if h != "vc.h" and os.path.exists(os.path.join(C, h)): txt += open(os.path.join(C, h)).read()
        s.stubs = sorted(set(re.findall(r"\bstub_(\w+)\s*\(", txt)))
        s.gstubs = sorted(set(re.findall(r"\bgstub_(\w+)\s*\(", txt)))     # library functions: stand-ins in the proof, the real ones natively
        s.hints = sorted(set(re.findall(r"\bvoid ((?:hint|all)_\w+)\s*\(", txt)))
        s.asm = [l.strip() for l in re.findall(r"^//@ assume:(.*)$", txt, re.M)]
        s.exit_ok = "exit_ok=true" in s.opt
        s.libs = f("lib")
        if var:
            s.name += "@" + var[0]
            s.defs = s.defs + var[1:]

def units(pid):
    r = [Unit(p) for p in sorted(glob.glob(C + "/*.c")) if not p.endswith("vc_rt.c")]
    return [v for u in r if pid in u.props for v in ([Unit(u.path, x) for x in u.variants] or [u])]

class Builder:
    """objects per (source, reading), built once per run from the current tree"""
    def __init__(s, tmp):
        s.tmp, s.made = tmp, {}
        import threading
        s.lock = threading.Lock()
        s.locks = {}
    def obj(s, src, mode, defs=()):
        key = (src, mode, tuple(defs))
        with s.lock: lk = s.locks.setdefault(key, threading.Lock())
        with lk:
            if key in s.made: return s.made[key]
            o = "%s/%s.%s.%d.o" % (s.tmp, os.path.basename(src), mode, abs(hash(key)) % 10**8)
            if mode == "native":
                cmd = ["gcc", "-g", "-O1", "-fPIC", "-fsemantic-interposition", "-fno-inline", "-w", "-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,bounds",
                       "-fno-sanitize-recover=all", "-ffunction-sections"]
            elif mode == "gvc": cmd = ["goto-cc", "-DVC_GVC"]
            else: cmd = ["goto-cc", "-DVC_CBMC"]
            cmd += ["-D" + d for d in defs] + INC + ["-c", src, "-o", o]
            r = sh(cmd, 300)
            if r.returncode or not os.path.exists(o): raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
            s.made[key] = o
            return o
import threading

def sources(u): return [os.path.join(REPO, "src/modules", x) for x in u.src]

def link_goto(b, u, mode):
    # hint functions are only called by the invariant generator: keep them in the program
    objs = [b.obj(u.path, mode, u.defs + ["VC_HINTS=" + "".join(h + "();" for h in u.hints)])] + [b.obj(x, mode if False else "goto") for x in sources(u)]
    o = "%s/%s.%s.gb" % (b.tmp, u.name, mode)
    r = sh(["goto-cc"] + objs + ["-o", o], 300)
    if r.returncode: raise BuildError("goto-cc link " + u.name + "\n" + r.stdout[-4000:])
    for st, to in [(x, "stub_" + x) for x in u.stubs] + [(x, "gstub_" + x) for x in u.gstubs]:
        r = sh(["goto-instrument", "--replace-calls", "%s:%s" % (st, to), o, o + ".r"], 300)
        if r.returncode == 0: os.replace(o + ".r", o)
    r = sh(["goto-instrument", "--drop-unused-functions", o, o + ".d"], 300)
    if r.returncode: raise BuildError("goto-instrument " + u.name + "\n" + r.stdout[-2000:])
    return o + ".d"

def link_native(b, u):
    objs = [b.obj(u.path, "native", u.defs + ["VC_EXIT_OK=%d" % u.exit_ok]), b.obj(os.path.join(C, "vc_rt.c"), "native")]
    for x in sources(u):
        o = b.obj(x, "native")
        if u.stubs:
            w = "%s.%s.w.o" % (o, u.name)
            r = sh(["objcopy"] + ["--weaken-symbol=" + st for st in u.stubs] + [o, w], 60)
            if r.returncode: raise BuildError("objcopy\n" + r.stdout)
            o = w
        objs.append(o)
    exe = "%s/%s.exe" % (b.tmp, u.name)
    cmd = ["gcc", "-g", "-fsanitize=address,undefined", "-Wl,--gc-sections", "-Wl,--wrap=exit"] \
        + ["-Wl,--defsym=%s=stub_%s" % (st, st) for st in u.stubs] + objs + ["-o", exe] + ["-l" + l for l in u.libs] + ["-lm"]
    r = sh(cmd, 300)
    if r.returncode:
        # functions outside the unit that its code refers to but the contract never reaches
        und = sorted(set(re.findall(r"undefined reference to `(\w+)'", r.stdout)))
        if und:
            f = "%s/%s.und.c" % (b.tmp, u.name)
            with open(f, "w") as g:
                g.write("void vc_unmodelled(const char *);\n" + "".join("void %s(void){ vc_unmodelled(\"%s\"); }\n" % (x, x) for x in und))
            r = sh(cmd + ["-w", f], 300)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1")

def replay(exe, f):
    try: r = sh([exe, "replay", f], 90, env=ENV)
    except subprocess.TimeoutExpired: return 44, "timeout"
    return r.returncode, r.stdout

def native_search(b, u, secs, out, seed):
    exe = link_native(b, u)
    try: r = sh([exe, "random", str(seed), str(secs), out], secs + 60, env=ENV)
    except subprocess.TimeoutExpired: return None, "native search timed out"
    if r.returncode == 42 and os.path.exists(out):
        code, txt = replay(exe, out)
        if code == 42: return out, txt
        return None, "native search found an input that did not replay: " + txt[-500:]
    return None, r.stdout.strip()[-300:]

def cbmc_search(b, u, secs, out):
    gb = link_goto(b, u, "cbmc")
    exe = link_native(b, u)
    cmd = ["cbmc", gb, "--unwind", str(u.unwind), "--no-unwinding-assertions", "--signed-overflow-check", "--no-malloc-may-fail", "--object-bits", "10",
           "--drop-unused-functions", "--trace", "--json-ui", "--verbosity", "4"]
    try: r = subprocess.run(["timeout", "-k", "5", str(secs)] + cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs + 30,
                            preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (10 << 30, 10 << 30)))
    except subprocess.TimeoutExpired: return None, "cbmc timed out", "timeout"
    try: j = json.loads(r.stdout)
    except ValueError: return None, "cbmc gave no answer within %d s" % secs, "none"
    n = 0
    for e in j:
        for p in e.get("result", []):
            if p.get("status") != "FAILURE": continue
            n += 1
            K = {"int": "i", "short": "h", "ushort": "H", "small": "B", "char": "c", "float": "f", "double": "d", "long": "l", "uint": "I", "ulong": "L"}
            with open(out, "w") as f:
                f.write("# cbmc counterexample for: %s\n" % p.get("description"))
                for a in p.get("trace", []):
                    l = a.get("lhs", "")
                    if a.get("stepType") == "assignment" and l.startswith("vc_rec_") and "binary" in a.get("value", {}):
                        k = K[l[7:]]; bits = a["value"]["binary"]; v = int(bits, 2)
                        if k in "ihcl" and bits[0] == "1": v += (1 << 64) - (1 << len(bits))
                        f.write("%s %x\n" % (k, v))
            code, txt = replay(exe, out)
            if code == 42: return out, txt, "failure"
    return None, "cbmc (unwind %d): %d failing assertions, none replayed" % (u.unwind, n) if n else "cbmc (unwind %d): no failing assertion" % u.unwind, "ok" if not n else "spurious"

T0 = time.time()
LIMIT = 820 if TIER == "quick" else 5400          # a check has 900 s in all

def left(want, keep=0): return int(max(10, min(want, LIMIT - keep - (time.time() - T0))))

def prove(b, u, again=False):
    gb = link_goto(b, u, "gvc")
    out = "%s/%s.json" % (b.tmp, u.name)
    txt = ""
    PROVE_S = left(PROVE_MAX, 200 if again else 240)
    try: txt = sh(["timeout", "-k", "5", str(PROVE_S + 60), PY, V + "/gvc/unit.py", gb, out, str(PROVE_S), str(SEED + 100 * again)] + u.opt + ["slow=3"] * again, PROVE_S + 120).stdout
    except subprocess.TimeoutExpired: pass
    if os.path.exists(out):
        try: return json.load(open(out))
        except ValueError: pass
    r = {"status": "unproved", "output": txt[-3000:], "failed": [{"name": "all obligations of the unit", "kind": "timeout", "func": u.fn[0] if u.fn else "?", "file": "", "line": "", "status": "unknown"}], "kinds": {}, "functions": [], "wall_s": PROVE_S, "solver_s": PROVE_S}
    return r

def decide(b, u, pid):
    t = time.time()
    res = {"unit": u.name, "fn": u.fn, "res": None, "viol": None}
    if u.bounded: r = {"status": "bounded", "why": "unit is a bounded stand-in"}
    else:
        r = prove(b, u)
    res["res"] = r
    if r["status"] == "proved":
        res["wall"] = time.time() - t
        return res
    rp = os.path.join(V, "evidence", "replay")
    os.makedirs(rp, exist_ok=True)
    out = os.path.join(rp, "%s-%s.txt" % (pid, u.name))
    log = []
    f, txt = native_search(b, u, left(FIND_S), b.tmp + "/" + u.name + ".n", SEED)
    log.append("native search: " + txt)
    # the solver ran out of time somewhere: once more with longer limits and another seed
    if not f and r["status"] == "unproved" and left(PROVE_MAX, 200) > 60 and (r.get("lost") or not r.get("houdini_complete") or any(o["status"] == "unknown" for o in r["failed"])):
        q = prove(b, u, True)
        if q["status"] == "proved":
            res["res"] = q
            res["wall"] = time.time() - t
            return res
    cb = None
    if not f and not u.nocbmc:
        f, txt, cb = cbmc_search(b, u, left(CBMC_S, 30), b.tmp + "/" + u.name + ".c")
        log.append(txt)
    res["log"] = log
    if f:
        with open(out, "w") as g:
            g.write("# replay of a violation of %s, contract unit contracts/%s.c (functions: %s)\n" % (pid, u.name, " ".join(u.fn)))
            for o in r.get("failed", []): g.write("# undischarged obligation: %s (%s) in %s at %s:%s\n" % (o["name"], o["kind"], o["func"], o["file"], o["line"]))
            for l in txt.strip().splitlines()[:60]: g.write("# " + l + "\n")
            g.write("# run: %s/check.py %s --replay %s\n" % (V, pid, out))
            g.write("".join(l for l in open(f) if not l.startswith("#")))
        res["viol"] = (out, "")
    elif r["status"] == "unproved":
        with open(out, "w") as g:
            g.write("no failing input found for %s, contract unit contracts/%s.c\n" % (pid, u.name))
            for o in r["failed"]: g.write("failed obligation: %s [%s, %s] in %s at %s:%s\n" % (o["name"], o["kind"], o["status"], o["func"], o["file"], o["line"]))
            g.write("\nverifier output:\n" + json.dumps(r, indent=1) + "\n" + "\n".join(log) + "\n")
        res["viol"] = (out, " no-failing-input-found")
    else:
        res["bounded"] = "%s; %s" % (r.get("why"), "; ".join(log))
    res["wall"] = time.time() - t
    return res

TRUSTED = ["goto-cc 6.11 front end (C semantics of the translation units, OpenMP pragmas ignored: loops are read sequentially)",
           "gvc verification condition generator (/verif/gvc)", "z3", "typed memory model: objects are accessed with their declared element type",
           "floating point: uninterpreted functions with axioms that hold for IEEE-754 binary32/64, round to nearest"]

def main():
    pid = sys.argv[1]
    us = units(pid)
    if "--unit" in sys.argv: us = [u for u in us if u.name == sys.argv[sys.argv.index("--unit") + 1]]
    t0 = time.time()
    if not us:
        print("no contract units for", pid); return 2
    tmp = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try:
        b = Builder(tmp)
        if "--replay" in sys.argv:
            f = sys.argv[sys.argv.index("--replay") + 1]
            name = re.search(r"contract unit contracts/(\S+?)\.c", open(f).read()).group(1)
            code, txt = replay(link_native(b, [u for u in us if u.name == name][0]), f)
            print(txt); return 1 if code == 42 else 0 if code == 0 else 2
        if "--prove" in sys.argv:      # development aid: prover only
            for u in us:
                r = prove(b, u)
                if "--inv" in sys.argv: print("\n".join(r.get("invlist", [])))
                print(u.name, r["status"], r.get("why", ""), "wall", r.get("wall_s"), "vcgen", r.get("vcgen_s"), "solver", r.get("solver_s"), "cands", r.get("candidates"), "kept", r.get("invariants"), "vac", r.get("vacuity"), r.get("kinds"))
                for o in r.get("failed", []): print("  FAIL", o["status"], o["kind"], o["func"], o["line"], o["name"])
                print(r.get("output", ""), "\n".join(r.get("assumptions", [])))
            return 0
        try:
            with cf.ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(lambda u: decide(b, u, pid), us))
        except BuildError as e:
            print("cannot build the contract units:", e); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, us, rs, t0)

def report(pid, us, rs, t0):
    known = json.load(open(V + "/known_findings.json")) if os.path.exists(V + "/known_findings.json") else []
    kinds, funcs, asm, be, solver = {}, set(), set(), {}, 0.0
    viol, err, unitrows = [], [], []
    for u in us:
        if u.stubs: asm.add("contracts/%s: calls of %s are replaced by the stand-ins written there" % (os.path.basename(u.path), ", ".join(u.stubs)))
        if u.gstubs: asm.add("contracts/%s: the library functions %s follow the contracts written there (replays run the real ones)" % (os.path.basename(u.path), ", ".join(u.gstubs)))
        for l in u.asm: asm.add("contracts/%s: %s" % (os.path.basename(u.path), l))
    for r in rs:
        q = r["res"]
        if r.get("error"): err.append(r["error"])
        for k, v in q.get("kinds", {}).items():
            d = kinds.setdefault(k, {"total": 0, "proved": 0}); d["total"] += v["total"]; d["proved"] += v["proved"]
        funcs |= {f for f in q.get("functions", []) if f not in ("main", "pre", "run", "post") and not f.startswith(("hint_", "all_", "rec_", "stub_", "gstub_"))}
        asm |= set(q.get("assumptions", []))
        for k, v in q.get("backends", {}).items(): be[k] = be.get(k, 0) + v
        solver += q.get("solver_s", 0)
        unitrows.append({"unit": r["unit"], "contract_on": r["fn"], "status": q["status"], "obligations": sum(v["total"] for v in q.get("kinds", {}).values()),
                         "loops_cut": q.get("loops"), "invariants_kept": q.get("invariants"), "queries": q.get("queries"), "wall_s": q.get("wall_s"), "bounded": r.get("bounded"), "why": q.get("why")})
        if r.get("bounded"): asm.add("BOUNDED, not proved: unit %s (%s)" % (r["unit"], r["bounded"]))
        if r["viol"]: viol.append((r, r["viol"]))
    kf = [k for k in known if k.get("property") == pid and not k.get("fixed")]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "proof",
          "coverage": {"obligations": sum(v["total"] for v in kinds.values()), "discharged": sum(v["proved"] for v in kinds.values()),
                       "checker_cmd": "python3 /verif/check.py " + pid, "trusted_base": TRUSTED, "by_kind": kinds, "by_back_end": be,
                       "solver_s": round(solver, 2), "functions_under_contract": sorted({f for r in rs for f in r["fn"]}),
                       "functions_verified_inline": sorted(funcs), "units": unitrows},
          "assumptions": sorted(asm), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    print("%s: %d units, %d of %d obligations discharged, %d functions, solver %.1f s, wall %.1f s" % (pid, len(rs), ev["coverage"]["discharged"], ev["coverage"]["obligations"], len(funcs), solver, ev["wall_s"]))
    for r in rs:
        if r["res"]["status"] != "proved": print("  unit %s: %s %s" % (r["unit"], r["res"]["status"], r.get("bounded") or [o["name"] for o in r["res"].get("failed", [])][:6]))
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    sure = [v for v in viol if not v[1][1]]
    for r, (path, suf) in sure or viol: print("VIOLATION property=%s replay=%s%s" % (pid, path, suf))
    if sure:
        for r, (path, suf) in viol:
            if suf: print("  also undischarged, see %s" % path)
    if viol: return 1
    for e in err: print("error:", e)
    return 2 if err else 0

sys.exit(main())
