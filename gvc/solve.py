"""Houdini over the invariant candidates, then discharge of every obligation."""
import time
import z3
from .engine import isz, AND, NOT

class Solver:
    def __init__(s, eng, timeout=60000, seed=1, log=None, slow=1):
        s.e = eng
        s.tmo = timeout * slow
        s.slow, s.lost = slow, 0      # lost: candidates given up because the solver had no answer in time
        s.log = log or (lambda m: None)
        s.seed = seed
        s.masks, s.tbit, s.tfacts, s.keep = {}, {}, [], []
        base, pairs = [], []
        for f, t in zip(eng.facts, eng.ftrig):
            if not isz(f): f = z3.BoolVal(bool(f))
            if t is None: base.append(f)
            elif isinstance(t, tuple): pairs.append((t, f))
            else:
                if t.get_id() not in s.tbit: s.tbit[t.get_id()] = len(s.tfacts); s.tfacts.append([]); s.keep.append(t)
                s.tfacts[s.tbit[t.get_id()]].append(f)
        for t, f in pairs:
            for x in t:
                if x.get_id() not in s.tbit: s.tbit[x.get_id()] = len(s.tfacts); s.tfacts.append([]); s.keep.append(x)
        s.base = 0
        s.bfacts = base
        for f in base: s.base |= s.mask(f)
        s.tmask = [0] * len(s.tfacts)
        for k, fs in enumerate(s.tfacts):
            for f in fs: s.tmask[k] |= s.mask(f)
        s.pairs = [(sum(1 << s.tbit[i] for i in {x.get_id() for x in t}), f) for t, f in pairs]
        s.emask = [s.mask(f) for f in eng.epochs]
        s.nq = 0
        s.hard = set()
        s.time = 0.0

    def mask(s, x):
        """set of trigger terms in x, as bits"""
        if not isz(x): return 0
        st = [x]
        while st:
            e = st[-1]
            i = e.get_id()
            if i in s.masks: st.pop(); continue
            ch = e.children()
            todo = [q for q in ch if q.get_id() not in s.masks]
            if todo: st.extend(todo); continue
            m = 1 << s.tbit[i] if i in s.tbit else 0
            for q in ch: m |= s.masks[q.get_id()]
            s.masks[i] = m; s.keep.append(e)
            st.pop()
        return s.masks[x.get_id()]
    def solver(s, epoch, goals):
        """a solver holding everything assumed before the epoch that can matter to the goals"""
        m = s.base
        for g in goals: m |= s.mask(g)
        S = z3.SimpleSolver()
        S.set("random_seed", s.seed)
        S.set("timeout", int(s.tmo))
        for f in s.bfacts: S.add(f)
        for k in range(epoch):
            c = s.e.ecand.get(k)
            if c is None or c.on: m |= s.emask[k]; S.add(s.e.epochs[k])
        for c in s.e.cands:
            if c.on: S.add(c.act)
        g = 0
        for x in goals: g |= s.mask(x)
        for need, f in s.pairs:
            if need & g: m |= need
        todo, done = m, 0
        while todo:
            b = todo & -todo
            done |= b
            k = b.bit_length() - 1
            for f in s.tfacts[k]: S.add(f)
            todo = (todo | s.tmask[k]) & ~done
        for need, f in s.pairs:
            if need & done == need: S.add(f)
        return S

    def check(s, epoch, extra, timeout=None):
        t = time.time()
        S = s.solver(epoch, extra)
        if timeout: S.set("timeout", int(timeout))
        for x in extra: S.add(x)
        r = S.check()
        m = S.model() if r == z3.sat else None
        s.time += time.time() - t
        s.nq += 1
        return r, m

    def houdini(s, deadline=None):
        inv = [o for o in s.e.obls if o.cand is not None]
        groups = {}
        for o in inv: groups.setdefault(o.epoch, []).append(o)
        s.rounds = 0
        changed = True
        while changed:
            changed = False
            for ep in sorted(groups):
                while True:
                    r = s.weed(ep, [o for o in groups[ep] if o.cand.on], 5000, deadline)
                    if r is None: return False
                    if not r: break
                    changed = True
        s.log("houdini: %d rounds, %d of %d candidates kept, %.1fs" % (s.rounds, sum(c.on for c in s.e.cands), len(s.e.cands), s.time))
        return True

    def weed(s, ep, act, tmo, deadline):
        """drop candidates with a counterexample at this point; True if any was dropped, None if out of time"""
        if not act: return False
        hard = [o for o in act if id(o) in s.hard]
        if hard and len(act) > 1:
            # known to be difficult: one at a time, after the others
            ch = s.weed(ep, [o for o in act if id(o) not in s.hard], tmo, deadline)
            for o in hard:
                if ch is None: return None
                if not o.cand.on: continue
                q = s.weed(ep, [o], tmo, deadline)
                ch = None if q is None else ch or q
            return ch
        t0 = time.time()
        S = s.solver(ep, [o.cond for o in act])
        S.set("timeout", s.slow * (tmo if len(act) > 1 else 30000 if "=>" in act[0].name else 20000))
        ch = False
        def drop(m, rest):
            dead = 0
            for o in rest:
                v = m.eval(o.cond, model_completion=True) if isz(o.cond) else o.cond
                if v is False or (isz(v) and z3.is_false(v)):
                    o.cand.on = False; dead += 1
            s.log("houdini epoch %d: dropped %d of %d" % (ep, dead, len(rest)))
            return dead
        neg = lambda o: z3.Not(o.cond) if isz(o.cond) else z3.BoolVal(not o.cond)
        # several models in one scope: what fails under the stronger assumptions also fails under the weaker ones
        while True:
            s.rounds += 1
            if deadline and time.time() > deadline: return None
            rest = [o for o in act if o.cand.on]
            if not rest: r = z3.unsat; break
            S.add(z3.Or(*[neg(o) for o in rest]))
            r = S.check()
            s.nq += 1
            if r != z3.sat: break
            if not drop(S.model(), rest): r = z3.unknown; break
            ch = True
        s.time += time.time() - t0
        if r != z3.unknown: return ch
        rest = [o for o in act if o.cand.on]
        if len(rest) == 1:
            rest[0].cand.on = False
            s.lost += 1
            s.log("houdini: unknown, dropped " + rest[0].name)
            return True
        s.log("houdini epoch %d: one by one %d" % (ep, len(rest)))
        t0 = time.time()
        S = s.solver(ep, [o.cond for o in rest])
        S.set("timeout", 1000 * s.slow)
        left = []
        for o in rest:
            if not o.cand.on: continue
            if deadline and time.time() > deadline: return None
            S.push()
            S.add(neg(o))
            r = S.check()
            s.nq += 1
            if r == z3.sat and drop(S.model(), [x for x in rest if x.cand.on]): ch = True
            if r == z3.unknown or o.cand.on and r == z3.sat: left.append(o)
            S.pop()
        s.time += time.time() - t0
        for o in left:
            if not o.cand.on: continue
            s.hard.add(id(o))
            q = s.weed(ep, [o], tmo, deadline)
            if q is None: return None
            ch = ch or q
        return ch

    def discharge(s, deadline=None):
        """status per obligation: proved / failed / unknown"""
        for o in s.e.obls:
            if o.status == "trivial": o.status = "proved"; continue
            if o.cand is not None:
                o.status = "proved" if o.cand.on else "dropped"
                continue
        todo = [o for o in s.e.obls if o.status is None]
        groups = {}
        for o in todo: groups.setdefault(o.epoch, []).append(o)
        for ep in sorted(groups):
            g = groups[ep]
            t = time.time()
            while g:
                if deadline and time.time() > deadline:
                    for o in g: o.status = "unknown"
                    break
                r, m = s.check(ep, [z3.Or(*[z3.Not(o.cond) if isz(o.cond) else z3.BoolVal(True) for o in g])])
                if r == z3.unsat:
                    for o in g: o.status = "proved"
                    break
                if r == z3.sat:
                    bad = [o for o in g if not isz(o.cond) or z3.is_false(m.eval(o.cond, model_completion=True))]
                    if not bad:
                        for o in g: s.single(o, ep)
                        break
                    for o in bad: o.status = "failed"; o.model = m
                    g = [o for o in g if o.status is None]
                else:
                    for o in g: s.single(o, ep)
                    break
            for o in groups[ep]: o.time = (time.time() - t) / len(groups[ep])
        return [o for o in s.e.obls if o.status not in ("proved", "dropped")]

    def single(s, o, ep):
        r, m = s.check(ep, [z3.Not(o.cond) if isz(o.cond) else z3.BoolVal(not o.cond)])
        o.status = "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
        o.model = m

    def vacuity(s):
        """the assumptions must be satisfiable at the end of the harness"""
        pc = s.e.final.pc if s.e.final is not None else (False,)
        r, m = s.check(len(s.e.epochs), [c if isz(c) else z3.BoolVal(c) for c in pc], 120000)
        return r

    def backends(s):
        return {"z3 " + z3.get_version_string(): sum(1 for o in s.e.obls if o.status == "proved")}
