"""One contract unit: GOTO program -> verification conditions -> result as JSON.
   unit.py PROG.gb OUT.json SECONDS SEED key=value..."""
import json, sys, time, os, resource
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(200000)
from gvc.prog import Prog, Unsupported
from gvc.engine import Engine
from gvc.solve import Solver

def val(x):
    if x in ("true", "false"): return x == "true"
    try: return int(x)
    except ValueError: return x.split(",") if "," in x else x

def main():
    gb, out, secs, seed = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    opt = dict((a.split("=")[0], val(a.split("=", 1)[1])) for a in sys.argv[5:])
    for k in ("pure", "bounds"):
        if isinstance(opt.get(k), str): opt[k] = [opt[k]]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    res = {"status": "error"}
    try:
        p = Prog(gb)
        opt["extra_roots"] = [f for f in p.fjson if f.startswith(("hint_", "all_")) and p.has(f)]
        e = Engine(p, opt)
        e.run()
        t1 = time.time()
        s = Solver(e, timeout=int(opt.get("tmo", 30)) * 1000, seed=seed, slow=int(opt.get("slow", 1)))
        done = s.houdini(t0 + secs * 0.7)
        if not done:
            for c in e.cands: c.on = False      # out of time before the candidates were inductive: use none
        s.discharge(t0 + secs)
        vac = str(s.vacuity())
        kinds = {}
        for o in e.obls:
            if o.status == "dropped": continue
            k = kinds.setdefault(o.kind, {"total": 0, "proved": 0})
            k["total"] += 1
            if o.status == "proved": k["proved"] += 1
        bad = [o for o in e.obls if o.status not in ("proved", "dropped")]
        res = {"status": "proved" if not bad and vac != "unsat" else "unproved",
               "vacuity": vac, "lost": s.lost, "houdini_complete": done, "kinds": kinds,
               "failed": ([{"name": "some execution satisfies the precondition and returns", "kind": "vacuity", "func": "run", "file": "", "line": "", "status": "failed"}] if vac == "unsat" else []) + [{"name": o.name, "kind": o.kind, "func": o.func, "file": o.file, "line": o.line, "status": o.status} for o in bad],
               "functions": sorted(e.funcs_seen), "loops": len(e.loops_cut), "invariants": sum(c.on for c in e.cands),
               "invlist": ["%s:%s %s" % (c.loop[0], c.loop[1], c.desc) for c in e.cands if c.on],
               "candidates": len(e.cands), "assumptions": sorted(e.assumptions), "queries": s.nq, "solver_s": round(s.time, 2),
               "backends": s.backends(), "vcgen_s": round(t1 - t0, 2)}
    except Unsupported as x:
        res = {"status": "unsupported", "why": str(x)}
    except MemoryError:
        res = {"status": "unsupported", "why": "memory limit"}
    except Exception as x:
        import traceback
        res = {"status": "unsupported", "why": "internal: %s at %s" % (x, traceback.format_exc().strip().splitlines()[-3:-1])}
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(out, "w"), indent=1)

main()
