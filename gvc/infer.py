"""Candidate loop invariants (Houdini): counter bounds, the unit's postconditions
restricted to what has been processed so far, and author hints with holes."""
import itertools, re
import z3
from .engine import AND, OR, NOT, IMP, EQ, LE, LT, ITE, ADD, isz, py, same, P
from .prog import Unsupported

def counters(s, ins, head, end):
    """variables stepped by a constant inside the loop"""
    r = []
    for i in ins[head:end + 1]:
        if i.kind == "ASSIGN" and i.lhs.op == "sym" and i.lhs.t[0] == "i":
            x = i.x
            while x.op == "cast": x = x.a[0]
            if x.op in ("+", "-") and len(x.a) == 2:
                for a, b in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                    while a.op == "cast": a = a.a[0]
                    while b.op == "cast": b = b.a[0]
                    if a.op == "sym" and a.v == i.lhs.v and b.op == "const" and i.lhs.v not in r: r.append(i.lhs.v)
    return r

def exit_guards(s, ins, head, end):
    r = []
    for k in range(head, end + 1):
        i = ins[k]
        if i.kind == "GOTO" and i.guard is not None:
            if any(t > end for t in i.targets): r.append((k, i.guard, True))
            elif k == end and i.targets[0] == head and i.guard.op != "const": r.append((k, i.guard, False))
    return r

def atoms(e, out):
    if e.op in ("!", "&&", "||", "cast", "?"):
        for x in e.a:
            if x.t and x.t[0] == "b" or e.op != "cast": atoms(x, out)
        if e.op == "cast": atoms(e.a[0], out)
    elif e.op in ("<", "<=", ">", ">=", "!=", "==") and e.a[0].t[0] == "i": out.append(e)

def live(s, f):
    """per instruction, the locals whose value may still be read"""
    if not hasattr(s, "_live"): s._live = {}
    if f in s._live: return s._live[f]
    ins, _ = s.prog.func(f)
    addr = {}
    def taken(e):
        if e is None: return
        if e.op == "addr":
            x = e.a[0]
            while x.op in ("mem", "idx"): x = x.a[0]
            if x.op == "sym" and x.v.startswith(f + "::"): addr[x.v] = x.t
        for y in e.a: taken(y)
    def reads(e, out):
        if e is None: return
        if e.op == "sym": out.add(e.v)
        if e.op == "deref":
            for v, t in addr.items():
                if v in kept and (t == e.t or t[0] not in "if" or e.t[0] not in "if"): out.add(v)
        for y in e.a: reads(y, out)
    for i in ins:
        for e in (i.x, i.lhs, i.guard): taken(e)
    kept = set(addr)        # the others are only handed to callees (this is a heuristic: it selects candidates, nothing is assumed)
    for i in ins:
        for e in i.args: taken(e)
    use, kill, succ = [], [], []
    for k, i in enumerate(ins):
        u, d = set(), set()
        for e in (i.x, i.guard) + tuple(i.args): reads(e, u)
        if i.kind in ("DECL", "DEAD"): d.add(i.lhs.v)
        elif i.lhs is not None:
            if i.lhs.op == "sym": d.add(i.lhs.v)
            else: reads(i.lhs, u)
        use.append(u); kill.append(d)
        if i.kind == "GOTO":
            nx = list(i.targets)
            if i.guard is not None and not (i.guard.op == "const" and i.guard.v): nx.append(k + 1)
        elif i.kind == "END_FUNCTION": nx = []
        else: nx = [k + 1]
        succ.append([n for n in nx if n < len(ins)])
    L = [frozenset()] * len(ins)
    ch = True
    while ch:
        ch = False
        for k in range(len(ins) - 1, -1, -1):
            o = set()
            for n in succ[k]: o |= L[n]
            n = frozenset(use[k] | (o - kill[k]))
            if n != L[k]: L[k] = n; ch = True
    s._live[f] = L
    return L

class Post:
    def __init__(s, eng):
        s.e = eng
        s.cache = {}
        ins, _ = eng.prog.func("main")
        s.ctx = {}
        for k, i in enumerate(ins):
            if i.kind == "FUNCTION_CALL" and i.fn.op == "sym": s.ctx[i.fn.v] = "/%s@%d" % (i.fn.v, k)
    def call(s, fn, ctx, st, holes=None):
        e = s.e
        key = (fn, tuple(sorted(e.halias.items())), tuple((k, id(v)) for k, v in st.v.items()), tuple((k, id(v)) for k, v in st.m.items()), tuple(sorted((k, id(v) if not py(v) else v) for k, v in (holes or {}).items())))
        if key in s.cache: return s.cache[key][1]
        tmp = st.copy(); tmp.pc = ()
        sv = e.collect, e.holes, e.recs, e.cur, e.curfn
        e.collect, e.holes, e.recs = [], holes, []
        e.quiet += 1
        sd = e.dry; e.dry = 0
        try: e.call(fn, ctx, [], tmp)
        finally:
            e.quiet -= 1; e.dry = sd
            r = e.collect
            e.collect, e.holes, e.recs, e.cur, e.curfn = sv
        s.cache[key] = ((st.copy(), holes), r)      # the key holds ids: keep the values alive
        return r

def pointers(s, ctx, fn, t, st):
    """pointer variables of type t in the running function and the functions around it"""
    r = []
    for (c2, f2) in [(ctx, fn)] + [(l[0], l[1]) for l in s.loopstack]:
        for n, j in s.prog.sym.items():
            if n.startswith(f2 + "::") and "$tmp" not in n and "return_value" not in n and s.prog.T(j["type"]) == t:
                k = c2 + ":" + n
                if (k, t) not in r and (k in st.v or (s.vnode(k).vaddr and s.vobj.get(k) is not None)): r.append((k, t))
    return r

def getter(s, key, t):
    if key not in s.halias and s.vnode(key).vaddr:
        return lambda st: s.load(st, s.vnode(key), "", t, s.vobj[key], 0)
    def f(st):
        v = st.v.get(key)
        if v is None: v = s.rdvar(st, key, t)
        return v
    return f

def candidates(s, ins, ctx, fn, head, end, st, W):
    if not hasattr(s, "post"): s.post = Post(s)
    out = []
    seen = set()
    def add(desc, f):
        if desc in seen: return
        seen.add(desc)
        out.append((desc, f))
    short = lambda k: k.split("::")[-1].split(":")[-1]
    # --- variables
    ints = [(k, t) for (k, t) in sorted(W[0], key=str) if t[0] == "i" and t[1] >= 8 and k in st.v and "$tmp" not in k and "#ret" not in k]
    ptrs = [(k, t) for (k, t) in sorted(W[0], key=str) if t[0] == "p" and k in st.v and "$tmp" not in k]
    # a local that is always set again before it is read needs no invariant
    lv = live(s, fn)[head]
    def dead(k):
        n = k[len(ctx) + 1:] if k.startswith(ctx + ":") else k
        return n.startswith(fn + "::") and n not in lv
    ints = [a for a in ints if not dead(a[0])]
    ptrs = [a for a in ptrs if not dead(a[0])]
    cnames = counters(s, ins, head, end)
    ctr = [(s.vkey(ctx, v), s.prog.T(s.prog.sym[v]["type"])) for v in cnames]
    ctr = [c for c in ctr if c[0] in st.v and c in W[0]]
    encl = []
    for (c2, f2, h2, e2, W2) in reversed(s.loopstack):
        i2, _ = s.prog.func(f2)
        for v in counters(s, i2, h2, e2):
            k = s.vkey(c2, v)
            if k in st.v and (k, s.prog.T(s.prog.sym[v]["type"])) in W2[0]: encl.append((k, s.prog.T(s.prog.sym[v]["type"])))
    encl = [c for c in encl if c not in ctr]
    # counters that take part in the loop's exit test, with the bound they are compared to
    bnd = {}
    def bounds(c2, i2, h2, e2):
        r = []
        for (k, g, isexit) in exit_guards(s, i2, h2, e2):
            at = []
            atoms(g, at)
            for e in at:
                for x, y in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                    while x.op == "cast": x = x.a[0]
                    if x.op == "sym":
                        key = s.vkey(c2, x.v)
                        r.append(key)
                        if has_call_tmp(y): continue
                        s.quiet += 1
                        try: b = s.ev(y, st, c2)
                        finally: s.quiet -= 1
                        bnd.setdefault(key, []).append(ADD(b, 1) if e.op in ("<=", ">") and x is not e.a[1] else b)
        return r
    used = bounds(ctx, ins, head, end)
    gctr = [c for c in ctr if c[0] in used] or ctr
    gencl = []
    for (c2, f2, h2, e2, W2) in reversed(s.loopstack):
        i2, _ = s.prog.func(f2)
        u2 = bounds(c2, i2, h2, e2)
        mine = [c for c in encl if c[0].startswith(c2 + ":" + f2 + "::") or not ":" in c[0]]
        gencl += [c for c in (mine if not any(m[0] in u2 for m in mine) else [m for m in mine if m[0] in u2]) if c not in gencl]
    def pairs(w, k):
        """can the witness range over what the counter counts?"""
        r = s.rngof.get(st.v[w].get_id()) if isz(st.v[w]) else None
        if r is None or k not in bnd: return True
        hi = r[1]
        if py(hi): return True
        for b in bnd[k]:
            if py(b): 
                if b in (0, -1): return True
                continue
            if same(z3.simplify(b - 1), z3.simplify(hi)) or same(z3.simplify(b), z3.simplify(hi)): return True
        return False
    G = {k: getter(s, k, t) for k, t in ints + ctr + encl + ptrs}
    unm = lambda k: not any(k == w[0] for w in W[0])
    # bounds from the loop's own exit tests
    for (k, g, isexit) in exit_guards(s, ins, head, end):
        at = []
        atoms(g, at)
        for e in at:
            if any(has_call_tmp(x) for x in e.a): continue
            for rel, d in (("<=", 0), (">=", 0), (">=", -1), ("<=", 1)):
                def f(stt, e=e, rel=rel, d=d):
                    a, b = s.ev(e.a[0], stt, ctx), s.ev(e.a[1], stt, ctx)
                    return a <= b + d if rel == "<=" else a >= b + d
                add("%s %s %s%s" % (s.src(e.a[0]), rel, s.src(e.a[1]), "%+d" % d if d else ""), f)
    K = s.opt.get("bounds")
    if K is None:
        K = [v for v in harness_ints(s) if unm(v) and v in st.v]
    for (k, t) in ints:
        g = G[k]
        for c in (0, -1, 1):
            add("%s >= %d" % (short(k), c), lambda stt, g=g, c=c: c <= g(stt))
        e0 = st.v[k]
        add("%s >= its value before the loop" % short(k), lambda stt, g=g, e0=e0: e0 <= g(stt))
        add("%s <= its value before the loop" % short(k), lambda stt, g=g, e0=e0: g(stt) <= e0)
        for b in K:
            add("%s <= %s" % (short(k), b), lambda stt, g=g, b=b: g(stt) <= stt.v[b])
            add("%s < %s" % (short(k), b), lambda stt, g=g, b=b: g(stt) < stt.v[b])
    for (k, t) in ints:
        for (k2, t2) in ctr + encl:
            if k2 == k: continue
            add("%s <= %s" % (short(k), short(k2)), lambda stt, g=G[k], h=G[k2]: g(stt) <= h(stt))
            if (k, t) not in ctr: add("%s < %s" % (short(k), short(k2)), lambda stt, g=G[k], h=G[k2]: g(stt) < h(stt))
        for (k2, t2) in ctr:
            if k2 != k and (k, t) in ctr:
                a0, b0 = st.v[k], st.v[k2]
                add("%s and %s step together" % (short(k), short(k2)), lambda stt, g=G[k], h=G[k2], a0=a0, b0=b0: EQ(g(stt) - a0, h(stt) - b0))
    for (k, t) in ptrs:
        p0 = st.v[k]
        add("%s stays in its object" % short(k), lambda stt, g=G[k], p0=p0: EQ(g(stt).obj, p0.obj))
        add("%s does not move back" % short(k), lambda stt, g=G[k], p0=p0: p0.off <= g(stt).off)
        for (k2, t2) in ctr:
            c0 = st.v[k2]
            add("%s moves with %s" % (short(k), short(k2)), lambda stt, g=G[k], h=G[k2], p0=p0, c0=c0: EQ(g(stt).off - p0.off, h(stt) - c0))
    # --- guards over witnesses
    wit = [v for v in harness_ints(s) if v.startswith("W_") and v in st.v and isz(st.v[v])]
    gs = guards(s, wit, gctr, gencl, G, short, pairs)
    # state at an arbitrary iteration: what the loop cannot change needs no invariant
    s.quiet += 1
    sr, s.recs = s.recs, []
    try: hp = s.havoc(st, W, "probe")
    finally: s.quiet -= 1; s.recs = sr
    wv = {w: st.v[w] for w in wit}
    def relevant(gname, cond):
        ws = [w for w in wit if re.search(r"\b%s\b" % w, gname)]
        return all(py(wv[w]) or mentions(cond, wv[w]) for w in ws)
    # --- postconditions so far
    if s.opt.get("posts", True) and s.prog.has("post") and "post" in s.post.ctx:
        def posts(stt):
            d = {}
            s.quiet += 1
            try:
                for m, c in s.post.call("post", s.post.ctx["post"], stt): d[m] = AND(d.get(m, True), c)
            finally: s.quiet -= 1
            return d
        at0, at1 = posts(st), posts(hp)
        for m in list(at1) + [m for m in at0 if m not in at1]:
            if same(at0.get(m, True), at1.get(m, True)): continue
            for gd, gf in gs:
                if "&&&" in gd or not relevant(gd, at1.get(m, True)): continue
                if s.opt.get("post_guards") == "strict" and (gd == "true" or "=" in gd): continue
                def f(stt, m=m, gf=gf): return IMP(gf(stt), posts(stt).get(m, True))
                add("%s => %s" % (gd, m), f)
    # --- hints
    hf = sorted(f for f in s.prog.fjson if f.startswith("hint_") and s.prog.has(f))
    for f in hf:
        syms, lits, sn = {}, set(), set()
        s.refs(f, sn, syms, lits)
        holes = sorted(v for v in syms if v[:2] in ("HI", "HC", "HO", "HM", "HF", "HD", "HP", "HB"))
        quant = [v for v in syms if v.startswith("Q_")]
        pools = []
        for h in holes:
            if h.startswith("HC"): pool = ctr + encl
            elif h.startswith("HO"): pool = ctr
            elif h.startswith("HB"): pool = [(k, t) for (k, t) in sorted(W[0], key=str) if t == ("cb",) and k in st.v and "$tmp" not in k]
            elif h.startswith("HM"): pool = [a for a in ints if a not in ctr]
            elif h.startswith("HP"): pool = pointers(s, ctx, fn, syms[h], st)
            elif h.startswith("HI"): pool = ints + [e for e in encl if e not in ints]
            else:
                w = 32 if h.startswith("HF") else 64
                pool = [(k, t) for (k, t) in sorted(W[0], key=str) if t == ("f", w) and k in st.v and "$tmp" not in k]
                pool += [a for a in pointers(s, ctx, fn, ("f", w), st) if s.vnode(a[0]).vaddr]
            # whole numbers that are reached through their address (results of helper functions)
            if h.startswith(("HI", "HM")):
                for w in (16, 32): pool = pool + [a for a in pointers(s, ctx, fn, ("i", w, True), st) if s.vnode(a[0]).vaddr]
            pools.append([a for a in pool if not dead(a[0])])
        for asg in itertools.product(*pools):
            if len(set(a[0] for a in asg)) != len(asg): continue
            def ev(stt, f=f, asg=asg, holes=holes):
                hv = {h: getter(s, a[0], a[1])(stt) for h, a in zip(holes, asg)}
                s.halias = {h: a[0] for h, a in zip(holes, asg) if h.startswith("HP")}
                try: r = s.post.call(f, "/" + f, stt, hv)
                finally: s.halias = {}
                return AND(*[c for _, c in r])
            if quant:
                def evq(stt, qv, f=f, asg=asg, holes=holes, quant=quant):
                    hv = {h: getter(s, a[0], a[1])(stt) for h, a in zip(holes, asg)}
                    hv[quant[0]] = qv
                    s.halias = {h: a[0] for h, a in zip(holes, asg) if h.startswith("HP")}
                    try: r = s.post.call(f, "/" + f, stt, hv)
                    finally: s.halias = {}
                    return AND(*[c for _, c in r])
                def ev(stt, evq=evq):
                    return evq(stt, s.arb("sk", ("i", 32, True)))
                ev.q = evq
            lab = "%s(%s)" % (f, ",".join(short(a[0]) for a in asg))
            s.quiet += 1
            qv = s.fresh("qv", z3.IntSort()) if quant else None
            try: e0, e1 = (evq(st, qv), evq(hp, qv)) if quant else (ev(st), ev(hp))
            finally: s.quiet -= 1
            if same(e0, e1): continue
            most = 0 if quant else max([gwit(gd) for gd, gf in gs if relevant(gd, e1)], default=0)
            if s.opt.get("hint_guards2", False) != "ge" or most == 0: add(lab, ev)
            if s.opt.get("hint_guards", True) and not quant:
                for gd, gf in gs:
                    if gd == "true" or not relevant(gd, e1): continue
                    g2 = s.opt.get("hint_guards2", False)
                    if gd.count("&&") > 0 and not g2: continue
                    if g2 in ("only", "ge") and gwit(gd) < most: continue
                    if g2 == "ge" and (re.search("[<>](?!=)", gd)): continue
                    add("%s => %s" % (gd, lab), lambda stt, gf=gf, ev=ev: IMP(gf(stt), ev(stt)))
    return out

_consts = {}
def mentions(x, c):
    """does the term x contain the constants of c"""
    if not isz(c): return True
    return consts(c) <= consts(x)
def consts(x):
    if not isz(x): return frozenset()
    st = [x]
    while st:
        e = st[-1]
        i = e.get_id()
        if i in _consts: st.pop(); continue
        ch = e.children()
        todo = [q for q in ch if q.get_id() not in _consts]
        if todo: st.extend(todo); continue
        if ch: r = frozenset().union(*[_consts[q.get_id()][0] for q in ch])
        else: r = frozenset([e.decl().name()]) if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        _consts[i] = (r, e)
        st.pop()
    return _consts[x.get_id()][0]

def has_call_tmp(e):
    if e.op == "sym" and "$tmp" in e.v: return True
    return any(has_call_tmp(x) for x in e.a)

def harness_ints(s):
    if not hasattr(s, "_hints_"):
        r = []
        for n, j in s.prog.sym.items():
            if j.get("isStaticLifetime") and not j.get("isType"):
                loc = (j.get("location") or {}).get("file", "")
                if "/contracts/" in loc or loc.endswith(s.opt.get("harness", "?")):
                    t = s.prog.T(j["type"])
                    if t[0] == "i" and t[1] >= 32 and not n.startswith(("H", "G_", "Q_", "ret", "old")): r.append(n)
        s._hints_ = sorted(r)
    return s._hints_

def gwit(gd):
    """number of witnesses a guard speaks about"""
    return len(set(re.findall(r"W_\w+", gd)))
def guards(s, wit, ctr, encl, G, short, pairs):
    """conditions 'the witness has been handled already' over loop counters"""
    g = [("true", lambda stt: True)]
    def at(w, c):
        k = c[0]
        return [("%s<%s" % (w, short(k)), lambda stt, w=w, k=k: stt.v[w] < G[k](stt)),
                ("%s>%s" % (w, short(k)), lambda stt, w=w, k=k: stt.v[w] > G[k](stt)),
                ("%s==%s" % (w, short(k)), lambda stt, w=w, k=k: EQ(stt.v[w], G[k](stt))),
                ("%s>=%s" % (w, short(k)), lambda stt, w=w, k=k: stt.v[w] >= G[k](stt))]
    mine = [a for w in wit for c in ctr if pairs(w, c[0]) for a in at(w, c)]
    theirs = [a for w in wit for c in encl if pairs(w, c[0]) for a in at(w, c)]
    g += mine
    g += theirs
    def conj(a, b): return ("%s && %s" % (a[0], b[0]), lambda stt, a=a, b=b: AND(a[1](stt), b[1](stt)))
    eqs = [a for a in theirs if "==" in a[0]]
    for a in mine:
        for b in eqs: g.append(conj(b, a))
    # a loop nested in the loop of the witness: also "row earlier, or same row and element earlier" comes from the two conjuncts
    for a, b in itertools.combinations(eqs, 2):
        if a[0].split("==")[0] != b[0].split("==")[0]:
            cc = conj(a, b)
            g.append(cc)
            for m in mine: g.append(conj(cc, m))
    # only offered to hints
    for a in eqs:
        for b in theirs:
            if "==" not in b[0] and a[0].split("==")[0] != re.split("[<>]", b[0])[0]: g.append(("%s &&& %s" % (a[0], b[0]), conj(a, b)[1]))
    return g
