"""VC generation: merging symbolic execution over the GOTO program of the real code."""
import re
import z3
from .prog import Prog, X, Unsupported, fval
from .flt import Flt, FC, SORT, VAL, NAN

def isz(x): return isinstance(x, z3.ExprRef)
def py(x): return isinstance(x, (int, bool)) and not isz(x)

# ---- boolean / integer helpers folding concrete values ----------------------
def NOT(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def AND(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def OR(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def IMP(a, b): return OR(NOT(a), b)
def same(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    return type(a) == type(b) and a == b
def ITE(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if isinstance(a, P) or isinstance(b, P):
        return P(ITE(c, a.obj, b.obj), ITE(c, a.off, b.off))
    if isinstance(a, bool) and isinstance(b, bool): return c if a else NOT(c)
    if isinstance(a, bool) or isinstance(b, bool):
        return OR(AND(c, a), AND(NOT(c), b))
    return z3.If(c, a, b)
def EQ(a, b):
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    return a == b
def ADD(a, b):
    if py(a) and a == 0: return b
    if py(b) and b == 0: return a
    return a + b
def SUB(a, b):
    if py(b) and b == 0: return a
    return a - b
def MULC(a, c):
    return a if c == 1 else a * c
def LT(a, b): return a < b
def LE(a, b): return a <= b

class P:
    """pointer value: object id and offset (in elements of the pointee)"""
    __slots__ = ("obj", "off")
    def __init__(s, obj, off): s.obj, s.off = obj, off
    def __eq__(s, o): return isinstance(o, P) and same(s.obj, o.obj) and same(s.off, o.off)
    def __hash__(s): return id(s)
    def __repr__(s): return "P(%s,%s)" % (s.obj, s.off)

DYN = 1000000      # ids of objects allocated inside cut loops start here
NULLP = P(0, 0)

# ---- points-to regions --------------------------------------------------------
class Node:
    n = 0
    __slots__ = ("p", "flds", "kids", "addr", "id", "vaddr", "tks", "lit", "rules")
    def __init__(s):
        Node.n += 1
        s.id = Node.n
        s.p = None; s.flds = {}; s.kids = {}; s.addr = set(); s.vaddr = False; s.tks = {}; s.lit = None; s.rules = {}

def mentions(x, q):
    """does q occur in x"""
    st, seen = [x], set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if e.eq(q): return True
        st.extend(e.children())
    return False
def unify(pat, t, q):
    """the term for q that makes pat equal to t, or None"""
    if pat.eq(q): return t
    if not mentions(pat, q) or pat.num_args() != t.num_args() or not pat.decl().eq(t.decl()): return None
    r = None
    for a, b in zip(pat.children(), t.children()):
        if a.eq(b): continue
        x = unify(a, b, q)
        if x is None or (r is not None and not r.eq(x)): return None
        r = x
    return r

class Comp:
    """one memory component: z3 base array(s) with a concrete overlay"""
    __slots__ = ("base", "over", "syms")
    def __init__(s, base, over, syms): s.base, s.over, s.syms = base, over, syms

class St:
    __slots__ = ("v", "m", "pc", "nx")
    def __init__(s, v, m, pc, nx): s.v, s.m, s.pc, s.nx = v, m, pc, nx
    def copy(s): return St(dict(s.v), dict(s.m), s.pc, s.nx)

def pcand(pc): return AND(*pc)

class Obl:
    __slots__ = ("name", "kind", "cond", "epoch", "func", "line", "file", "cand", "status", "time", "model", "key")

class Cand:
    __slots__ = ("act", "desc", "on", "loop", "fn", "bool", "q")

class Engine:
    MATH = {"floor", "ceil", "fabs", "sqrt", "pow", "exp", "log", "log10", "log2", "sin", "cos", "tan", "asin", "acos", "atan",
            "atan2", "fmod", "round", "trunc", "fmin", "fmax", "cbrt", "sinh", "cosh", "tanh", "hypot", "erf", "lgamma", "tgamma", "exp2", "expm1", "log1p"}
    QUIETCALLS = {"printf", "puts", "putchar", "fprintf", "fflush", "perror", "fputs", "fputc", "setbuf", "free", "fclose",
                  "GDALClose", "VSIFree", "CSLDestroy", "usleep", "sleep"}

    def __init__(s, prog, opt=None):
        s.prog = prog
        s.nofold = 0
        s.opt = {"ovf": True, "maxunroll": 130, "exit_ok": False, "safety": True, "divzero": True, "fcast": False}
        s.opt.update(opt or {})
        s.facts = []            # definitional / always true
        s.epochs = []           # (formula) ordered assumptions
        s.obls = []
        s.cands = []
        s.quiet = 0
        s.dry = 0
        s.sid = 0
        s.ftrig, s.ecand, s.rngof, s.snap = [], {}, {}, None
        s.fl = Flt(s.fact, None); s.fl.bnd = s.bnd
        s.nodes = {}
        s.nullnodes = {}
        s.litnodes = {}
        s.vobj = {}
        s.nobj = 0
        s.objinfo = {}
        s.objsz = z3.Function("objsz", z3.IntSort(), z3.IntSort())
        s.recs = []             # write recorders (stack)
        s.factkeys = set()
        s.fresh_t = {}
        s.loopsc = {}
        s.modcache = {}
        s.assumptions = set()
        s.funcs_seen = {}
        s.holes = None
        s.halias = {}       # pointer holes of the hint being evaluated -> the variable filled in
        s.collect = None
        s.keep = []
        s.muls = {}
        s.insym = {}
        s.loopinst = {}
        s.loopstack = []
        s.nd = []
        s.recdepth = 0
        s.recuf = {}
        s.recdone = set()
        s.changed = False
        s.subf = {}
        s.loops_cut = []
        s.zero = []
        s.loadrec = None
        s.loadtrace = None
        s.bcache = {}
        s.symrng = {}
        s.mulist = []
        s.addrof = 0
        s.cur = None
        s.curfn = ''
        s.lits = {}
        s.nid = {}
        s.sites = 0
        s.covers = []
        s.symrules = {}
        s.factprog = {}
        s.memn = {}
        s.mscache = {}
        s.bitmap = {}

    # ================= symbols / facts =========================================
    def fresh(s, name, sort):
        s.sid += 1
        c = z3.Const("%s!%d" % (name, s.sid), sort)
        return c
    def fact(s, f, trig=None):
        """f holds; it is only of use to queries that mention the term trig (or all of them, if several)"""
        if f is True or (isz(f) and z3.is_true(f)): return
        s.facts.append(f); s.ftrig.append(trig)
    def assume(s, st, g, cond):
        """ordered assumption"""
        f = IMP(AND(pcand(st.pc), g), cond)
        if f is True: return
        s.epochs.append(f)
    def oblige(s, st, g, cond, kind, name, ins, fn, cand=None):
        if s.quiet or s.dry: return
        if cond is True: return s._count(kind, ins, fn, name)
        f = IMP(AND(pcand(st.pc), g), cond)
        if f is True: return s._count(kind, ins, fn, name)
        o = Obl()
        o.name, o.kind, o.cond, o.epoch, o.func = name, kind, f, len(s.epochs), fn
        o.line, o.file = (ins.line, ins.file) if ins else (None, None)
        o.cand, o.status, o.time, o.model = cand, None, 0.0, None
        s.obls.append(o)
    def _count(s, kind, ins, fn, name):
        o = Obl()
        o.name, o.kind, o.cond, o.epoch, o.func = name, kind, True, 0, fn
        o.line, o.file = (ins.line, ins.file) if ins else (None, None)
        o.cand, o.status, o.time, o.model = None, "trivial", 0.0, None
        s.obls.append(o)

    # ================= regions ==================================================
    def find(s, n):
        while n.p is not None:
            if n.p.p is not None: n.p = n.p.p
            n = n.p
        return n
    def union(s, a, b):
        work = [(a, b)]
        while work:
            a, b = work.pop()
            a, b = s.find(a), s.find(b)
            if a is b: continue
            s.changed = True
            b.p = a
            if b.vaddr: a.vaddr = True
            if b.lit is not None: a.lit = (a.lit or []) + b.lit
            a.addr |= b.addr
            for k, t in b.tks.items(): a.tks.setdefault(k, set()).update(t)
            for k, r in b.rules.items(): a.rules.setdefault(k, []).extend(r)
            for k, n in b.flds.items():
                if k in a.flds: work.append((a.flds[k], n))
                else: a.flds[k] = n
            for k, n in b.kids.items():
                if k in a.kids: work.append((a.kids[k], n))
                else: a.kids[k] = n
    def fld(s, n, f):
        n = s.find(n)
        if f not in n.flds: n.flds[f] = Node(); s.changed = True
        return s.find(n.flds[f])
    def kid(s, n, f):
        n = s.find(n)
        if f not in n.kids: n.kids[f] = Node(); s.changed = True
        return s.find(n.kids[f])
    def isglobal(s, name):
        sy = s.prog.sym.get(name)
        return sy is not None and sy.get("isStaticLifetime")
    def vkey(s, ctx, name):
        return name if s.isglobal(name) else ctx + ":" + name
    def vnode(s, k):
        k = s.halias.get(k, k)
        if k not in s.nodes: s.nodes[k] = Node(); s.changed = True
        return s.find(s.nodes[k])

    def rlv(s, e, ctx):
        """region of lvalue: (node, field)"""
        if e.op == "sym": return s.vnode(s.vkey(ctx, e.v)), ""
        if e.op == "deref": return s.rav(e.a[0], ctx), ""
        if e.op == "mem":
            n, f0 = s.rlv(e.a[0], ctx)
            n = s.find(n)
            if f0 != "": raise Unsupported("member of scalar")
            if e.t[0] in ("s", "a", "u"): return s.kid(n, e.v), ""
            if e.v in n.addr: return s.kid(n, e.v), ""
            return n, e.v
        if e.op == "idx": return s.rlv(e.a[0], ctx)
        if e.op == "str":
            if e.v not in s.litnodes:
                n = Node(); n.lit = [e.v]; s.litnodes[e.v] = n; s.changed = True
            return s.find(s.litnodes[e.v]), ""
        if e.op == "cast": return s.rlv(e.a[0], ctx)
        if e.op == "?":
            a, f = s.rlv(e.a[1], ctx); b, g = s.rlv(e.a[2], ctx)
            s.union(a, b); return s.find(a), f
        raise Unsupported("lvalue " + e.op)
    def rav(s, e, ctx):
        """region a pointer-valued expression points to"""
        if e.op == "addr":
            if e.a[0].t and e.a[0].t[0] == "fn": return s.nul(e, ctx)
            if e.a[0].op == "cast" and False: pass
            n, f = s.rlv(e.a[0], ctx)
            n = s.find(n)
            x = e.a[0]
            if f != "":
                if f not in n.addr:
                    n.addr.add(f); s.changed = True
                k = s.kid(n, f)
                if x.t[0] == "p": s.union(s.fld(n, f), s.fld(k, ""))
                return k
            if x.op == "sym" and not n.vaddr: n.vaddr = True; s.changed = True
            return n
        if e.op in ("sym", "mem", "deref", "idx"):
            n, f = s.rlv(e, ctx)
            return s.fld(n, f)
        if e.op == "cast":
            if e.a[0].t[0] == "p": return s.rav(e.a[0], ctx)
            if e.a[0].t[0] == "a": return s.rlv(e.a[0], ctx)[0]
            return s.nul(e, ctx)
        if e.op in ("+", "-"):
            for x in e.a:
                if x.t[0] == "p": return s.rav(x, ctx)
        if e.op == "?":
            a, b = s.rav(e.a[1], ctx), s.rav(e.a[2], ctx)
            s.union(a, b); return s.find(a)
        if e.op in ("null", "const", "nondet"): return s.nul(e, ctx)
        raise Unsupported("pointer expr " + e.op)
    def nul(s, e, ctx):
        k = (e.uid, ctx)
        if k not in s.nullnodes: s.nullnodes[k] = Node(); s.changed = True
        return s.find(s.nullnodes[k])

    def link_assign(s, lt, ln, lf, e, ctx):
        """constraints for (ln,lf) of type lt := e"""
        if lt[0] == "p":
            if e.t[0] == "p": s.union(s.fld(ln, lf), s.rav(e, ctx))
        elif lt[0] in ("s", "u", "a"):
            if e.op in ("nondet", "union"): return
            if e.op == "struct":
                for (f, ft), y in zip(s.prog.fields(lt[1]), e.a):
                    if f.startswith("$"): continue
                    if ft[0] in ("s", "a", "u") or f in s.find(ln).addr: s.link_assign(ft, s.kid(ln, f), "", y, ctx)
                    else: s.link_assign(ft, ln, f, y, ctx)
                return
            if e.op in ("array", "array_of"):
                for y in e.a: s.link_assign(lt[1], ln, "", y, ctx)
                return
            if e.op == "str": return
            rn, rf = s.rlv(e, ctx)
            s.link_copy(lt, ln, rn)
    def link_copy(s, t, a, b, depth=0):
        if t[0] == "s":
            for f, ft in s.prog.fields(t[1]):
                if ft[0] == "p":
                    s.union(s.loc_fld(a, f), s.loc_fld(b, f))
                elif ft[0] in ("s", "a"):
                    if depth < 6: s.link_copy(ft, s.kid(a, f), s.kid(b, f), depth + 1)
        elif t[0] == "a":
            if t[1][0] == "p": s.union(s.fld(a, ""), s.fld(b, ""))
            elif t[1][0] in ("s", "a"): s.link_copy(t[1], a, b, depth + 1)
    def loc_fld(s, n, f):
        n = s.find(n)
        if f in n.addr: return s.fld(s.kid(n, f), "")
        return s.fld(n, f)

    def analyse(s, main):
        for it in range(60):
            s.changed = False
            s._an(main, "", ())
            for f in s.opt.get("extra_roots", ()): s._an(f, "/" + f, ())
            if not s.changed: return
        raise Unsupported("points-to analysis did not converge")

    def callee(s, name):
        r = s.opt.get("replace", {})
        if name in r: return r[name]
        if s.prog.has("stub_" + name): return "stub_" + name
        return name

    def _an_expr(s, e, ctx):
        """visit subexpressions so that address-taken marks are complete"""
        if e is None: return
        if e.op == "addr":
            if not (e.a[0].t and e.a[0].t[0] == "fn"): s.rav(e, ctx)
        for x in e.a: s._an_expr(x, ctx)

    def _an(s, fn, ctx, stack):
        if stack.count(fn) > 0: raise Unsupported("recursion in " + fn)
        ins, params = s.prog.func(fn)
        for k, i in enumerate(ins):
            bld = i.kind == "FUNCTION_CALL" and i.fn.op == "sym" and i.fn.v in ("vc_rows", "vc_each", "vc_rows_of", "vc_index", "vc_sorted")
            for e in (i.lhs, i.x, i.guard) + (() if bld else tuple(i.args)): s._an_expr(e, ctx)
            if i.kind == "ASSIGN":
                n, f = s.rlv(i.lhs, ctx)
                s.link_assign(i.lhs.t, n, f, i.x, ctx)
            elif i.kind == "SET_RETURN_VALUE" and i.x is not None:
                s.link_assign(i.x.t, s.vnode(ctx + ":#ret"), "", i.x, ctx)
            elif i.kind == "FUNCTION_CALL":
                if i.fn.op != "sym":
                    tgt = s.opt.get("fnptr")
                    raise Unsupported("call through pointer in " + fn)
                nm = s.callee(i.fn.v)
                c = ctx + "/" + nm + "@%d" % k
                if nm in s.BUILT or nm in s.QUIETCALLS or s.ismath(nm):
                    s._an_built(nm, i, ctx, c)
                elif nm.startswith("rec_"):
                    if s.prog.has(nm): s._an_rec(nm)
                elif s.prog.has(nm):
                    _, ps = s.prog.func(nm)
                    for p, a in zip(ps, i.args):
                        s.link_assign(a.t if a.t[0] != "a" else a.t, s.vnode(c + ":" + p), "", a, ctx)
                    s._an(nm, c, stack + (fn,))
                    if i.lhs is not None and i.lhs.t[0] == "p":
                        n, f = s.rlv(i.lhs, ctx)
                        s.union(s.fld(n, f), s.fld(s.vnode(c + ":#ret"), ""))
                    elif i.lhs is not None and i.lhs.t[0] == "s":
                        n, f = s.rlv(i.lhs, ctx)
                        s.link_copy(i.lhs.t, n, s.vnode(c + ":#ret"))
    def _an_rec(s, nm):
        c = "/#" + nm
        if (c, s) in s.factkeys: pass
        ins, ps = s.prog.func(nm)
        for i in ins:
            for e in (i.lhs, i.x, i.guard) + tuple(i.args): s._an_expr(e, c)
            if i.kind == "ASSIGN":
                n, f = s.rlv(i.lhs, c); s.link_assign(i.lhs.t, n, f, i.x, c)
            elif i.kind == "SET_RETURN_VALUE" and i.x is not None:
                s.link_assign(i.x.t, s.vnode(c + ":#ret"), "", i.x, c)
            elif i.kind == "FUNCTION_CALL":
                m = i.fn.v
                if m.startswith("rec_") and m != nm and (m not in getattr(s, "_recan", ())):
                    s._recan = getattr(s, "_recan", ()) + (m,)
                    s._an_rec(m)
                    s._recan = s._recan[:-1]

    # ---- builtins -----------------------------------------------------------
    BUILT = {"malloc", "calloc", "realloc", "memset", "snprintf", "memcpy", "memmove", "exit", "abort", "__assert_fail", "strcmp", "strncmp",
             "strlen", "abs", "labs", "vc_arr", "vc_rows", "__CPROVER_assume", "__CPROVER_assert", "__builtin_expect", "vc_same_d", "vc_same_f",
             "__builtin_fabs", "rand", "vc_fresh_rows", "vc_havoc_bytes", "vc_int", "vc_short", "vc_ushort", "vc_small", "vc_char", "vc_bool", "vc_float",
             "vc_double", "vc_long", "vc_uint", "vc_ulong", "vc_hint", "vc_scalars", "__isnan", "__isnanf", "isnan", "isinf", "__isinf", "__isinff", "__finite", "__builtin_isnan", "__builtin_isinf_sign", "vc_ptr_rows", "omp_get_thread_num", "time", "fabsf", "__fpclassify", "vc_unknown_obj"}
    def ismath(s, n):
        return n in s.MATH or (n.endswith("f") and n[:-1] in s.MATH)

    def _an_built(s, nm, i, ctx, c):
        if nm in ("malloc", "calloc", "vc_arr", "vc_unknown_obj"):
            if i.lhs is not None and i.lhs.t[0] == "p":
                n, f = s.rlv(i.lhs, ctx)
                s.union(s.fld(n, f), s.vnode(c + ":#heap"))
        elif nm == "realloc":
            n, f = s.rlv(i.lhs, ctx)
            s.union(s.fld(n, f), s.rav(i.args[0], ctx))
        elif nm in ("memcpy", "memmove"):
            a, b = s.rav(i.args[0], ctx), s.rav(i.args[1], ctx)
            for f in list(b.flds):
                if f in b.tks and ("p",) in b.tks[f] or f in a.tks and ("p",) in a.tks.get(f, ()):
                    s.union(s.fld(a, f), s.fld(b, f))
            s.note_copy(a, b)
            if i.lhs is not None:
                n, f = s.rlv(i.lhs, ctx); s.union(s.fld(n, f), a)
        elif nm in ("memset",):
            if i.lhs is not None:
                n, f = s.rlv(i.lhs, ctx); s.union(s.fld(n, f), s.rav(i.args[0], ctx))
    def note_copy(s, a, b): pass

    # ================= objects ==================================================
    def newobj(s, size, what):
        s.nobj += 1
        i = s.nobj
        s.objinfo[i] = (size, what)
        s.fact(s.objsz(z3.IntVal(i)) == size)
        return i
    def size(s, obj):
        if py(obj): return s.objinfo[obj][0] if obj in s.objinfo else s.objsz(z3.IntVal(obj))
        return s.objsz(obj)
    def vobject(s, key, t):
        if key not in s.vobj:
            try: sz = s.prog.sizeof(t)
            except Unsupported: sz = None
            if sz is None: return None
            s.vobj[key] = s.newobj(sz, key)
        return s.vobj[key]
    TAGF = z3.Function("objtag", z3.IntSort(), z3.IntSort())
    INVO = z3.Function("objinv_o", z3.IntSort(), z3.IntSort())
    INVF = z3.Function("objinv_f", z3.IntSort(), z3.IntSort())
    def tagid(s, name):
        k = ("tag", name)
        if k not in s.subf: s.subf[k] = len([1 for q in s.subf if q[0] == "tag"]) + 10
        return s.subf[k]
    def subobj(s, obj, off, f, t):
        sz = s.prog.sizeof(t)
        f = "%s" % f
        if py(obj) and py(off):
            k = ("sub", obj, off, f)
            if k not in s.subf:
                i = s.newobj(sz, (obj, off, f))
                s.subf[k] = i
                F = z3.Function("sub_" + f, z3.IntSort(), z3.IntSort(), z3.IntSort())
                s.fact(F(z3.IntVal(obj), z3.IntVal(off)) == i)
                s.fact(z3.And(s.TAGF(z3.IntVal(i)) == s.tagid(f), s.INVO(z3.IntVal(i)) == obj, s.INVF(z3.IntVal(i)) == off))
            return s.subf[k]
        F = z3.Function("sub_" + f, z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = F(obj if isz(obj) else z3.IntVal(obj), off if isz(off) else z3.IntVal(off))
        k = ("subs", r.get_id())
        if k not in s.factkeys:
            s.factkeys.add(k); s.keep.append(r)
            s.fact(z3.And(s.TAGF(r) == s.tagid(f), s.INVO(r) == obj, s.INVF(r) == off, s.objsz(r) == sz, r != 0))
        return r

    # ================= memory ===================================================
    @staticmethod
    def tkey(t):
        if t[0] == "i": return t
        if t[0] == "cb": return ("cb",)
        if t[0] == "f": return t
        if t[0] == "p": return ("p",)
        if t[0] == "b": return ("b",)
        raise Unsupported("memory access of type %s" % (t,))
    def arrsorts(s, tk):
        I = z3.IntSort()
        if tk[0] == "f": return [z3.ArraySort(I, z3.ArraySort(I, SORT[tk[1]]))]
        if tk[0] == "p": return [z3.ArraySort(I, z3.ArraySort(I, I))] * 2
        return [z3.ArraySort(I, z3.ArraySort(I, I))]
    def newcomp(s, key):
        n, f, tk = key
        s.sid += 1
        nm = "M%d.%s.%s!%d" % (n, f, "".join(map(str, tk)), s.sid)
        base = tuple(z3.Const(nm + "ab"[j], so) for j, so in enumerate(s.arrsorts(tk)))
        if s.rng(tk):
            s.symrng[base[0].get_id()] = s.rng(tk); s.keep.append(base[0])
        return Comp(base, {}, ((s.sid, base),))
    def comp(s, st, key):
        c = st.m.get(key)
        if c is None:
            if key not in s.insym:
                s.insym[key] = s.newcomp(key)
                s.insym[key].syms = ((0, s.insym[key].base),)
            c = s.insym[key]
        return c
    def ckey(s, node, field, t):
        node = s.find(node)
        tk = s.tkey(t)
        tks = node.tks.setdefault(field, set())
        if tk not in tks:
            tks.add(tk)
            if len(tks) > 1 and not s.opt.get("pun_ok"):
                raise Unsupported("type punning on region field '%s': %s" % (field, tks))
        return (node.id, field, tk)
    def wrapval(s, tk, v):
        if tk[0] == "f": return s.fl.term(v)
        if isz(v): return v
        return z3.IntVal(v)
    def flush(s, key, c):
        if not c.over: return c
        tk = key[2]
        by = {}
        for (o, f), v in c.over.items(): by.setdefault(o, []).append((f, v))
        base = list(c.base)
        for o in by:
            for j in range(len(base)):
                inner = z3.Select(base[j], z3.IntVal(o))
                for f, v in by[o]:
                    vv = (v.obj, v.off)[j] if tk[0] == "p" else v
                    inner = z3.Store(inner, z3.IntVal(f), s.wrapval(tk, vv))
                base[j] = z3.Store(base[j], z3.IntVal(o), inner)
        return Comp(tuple(base), {}, c.syms)
    @staticmethod
    def I(x): return x if isz(x) else z3.IntVal(x)
    def sel(s, base, tk, obj, off):
        o, f = s.I(obj), s.I(off)
        if tk[0] == "p":
            return P(s.unv(s.fwd(s.fwd(base[0], o), f)), s.unv(s.fwd(s.fwd(base[1], o), f)))
        return s.unv(s.fwd(s.fwd(base[0], o), f))
    @staticmethod
    def unv(x): return x.as_long() if z3.is_int_value(x) else x
    @staticmethod
    def fwd(a, i):
        """select with store-to-load forwarding"""
        while z3.is_store(a):
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(j): a = a.arg(0); continue
            break
        return z3.Select(a, i)
    def rng(s, tk):
        if tk[0] == "cb": return 0, 1
        if tk[0] == "i":
            return (-(1 << tk[1] - 1), (1 << tk[1] - 1) - 1) if tk[2] else (0, (1 << tk[1]) - 1)
        return None
    def base_facts(s, key, node, sym, obj, off):
        """facts about the raw content of a base symbol at (obj,off)"""
        sid, base = sym
        o, f = s.I(obj), s.I(off)
        k = (base[0].get_id(), o.get_id(), f.get_id())
        rules = node.rules.get(key[1], ()) if sid == 0 else ()
        srules = s.symrules.get(sid, ())
        old = s.factprog.get(k)
        if old == (len(s.zero), len(rules), len(srules)): return
        s.factprog[k] = (len(s.zero), len(rules), len(srules))
        s.keep += [base[0], o, f]
        tk = key[2]
        v = s.sel(base, tk, o, f)
        r = s.rng(tk)
        if r and old is None and isz(v): s.fact(z3.And(v >= r[0], v <= r[1]))
        for z in s.zero[old[0] if old else 0:]:
            if z[1] > sid:
                if py(obj) and py(z[0]) and obj != z[0]: continue
                c = EQ(o, z[0]) if not (py(obj) and py(z[0])) else True
                if tk[0] == "p": e = AND(EQ(v.obj, 0), EQ(v.off, 0))
                elif tk[0] == "f": e = v == s.fl.term(FC(tk[1], 0))
                else: e = v == 0
                s.fact(IMP(c, e))
        for rule in list(srules[old[2] if old else 0:]): rule(v, obj, off)
        for rule in rules[old[1] if old else 0:]: rule(v, obj, off)
    def load(s, st, node, field, t, obj, off):
        node = s.find(node)
        key = s.ckey(node, field, t)
        if s.loadrec is not None: s.loadrec.add(key)
        if s.loadtrace is not None: s.loadtrace.append((key, obj, off))
        c = s.comp(st, key)
        tk = key[2]
        if py(obj) and py(off):
            if (obj, off) in c.over: return c.over[(obj, off)]
        elif c.over:
            # keep the cache: flush lazily
            c = s.flush(key, c)
            st.m[key] = c
        for sym in c.syms: s.base_facts(key, node, sym, obj, off)
        return s.sel(c.base, tk, obj, off)
    def store(s, st, node, field, t, obj, off, v):
        node = s.find(node)
        key = s.ckey(node, field, t)
        for r in s.recs: r[1].setdefault(key, []).append((obj, off))
        c = s.comp(st, key)
        tk = key[2]
        if py(obj) and py(off):
            o = dict(c.over); o[(obj, off)] = v
            st.m[key] = Comp(c.base, o, c.syms)
            return
        c = s.flush(key, c)
        o, f = s.I(obj), s.I(off)
        base = []
        for j, b in enumerate(c.base):
            vv = (v.obj, v.off)[j] if tk[0] == "p" else v
            base.append(z3.Store(b, o, z3.Store(z3.Select(b, o), f, s.wrapval(tk, vv))))
        st.m[key] = Comp(tuple(base), {}, c.syms)
    def havoc_obj(s, st, key, obj):
        """forget the content of one object in one component"""
        c = s.comp(st, key)
        n = s.newcomp(key)
        if py(obj):
            over = {k: v for k, v in c.over.items() if k[0] != obj}
        else:
            c = s.flush(key, c); over = {}
        o = s.I(obj)
        base = tuple(z3.Store(b, o, z3.Select(nb, o)) for b, nb in zip(c.base, n.base))
        st.m[key] = Comp(base, over, c.syms + n.syms)

    # ================= state merge ==============================================
    def merge(s, a, b):
        k = 0
        n = min(len(a.pc), len(b.pc))
        while k < n and same(a.pc[k], b.pc[k]): k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        ca = AND(*ra)
        cb = AND(*rb)
        if ca is False: return b
        if cb is False: return a
        pc = a.pc[:k]
        if ra and rb and len(ra) == 1 and len(rb) == 1 and same(NOT(ra[0]), rb[0]): pass
        else:
            o = OR(ca, cb)
            if o is not True: pc = pc + (o,)
        v = {}
        for x in a.v:
            if x in b.v:
                u, w = a.v[x], b.v[x]
                if not same(u, w):
                    if isinstance(u, FC): u = s.fl.term(u)
                    if isinstance(w, FC): w = s.fl.term(w)
                v[x] = ITE(ca, u, w)
            else: v[x] = a.v[x]
        for x in b.v:
            if x not in a.v: v[x] = b.v[x]
        m = {}
        for key in set(a.m) | set(b.m):
            x, y = s.comp(a, key), s.comp(b, key)
            m[key] = x if x is y else s.mergec(key, ca, x, y)
        return St(v, m, pc, ITE(ca, a.nx, b.nx))
    def mergec(s, key, ca, x, y):
        tk = key[2]
        over = {}
        for k in set(x.over) | set(y.over):
            u = x.over[k] if k in x.over else s.sel(x.base, tk, *k)
            w = y.over[k] if k in y.over else s.sel(y.base, tk, *k)
            for c in (x, y):
                if k not in c.over:
                    for sym in c.syms: s.base_facts(key, s.nodeof(key), sym, *k)
            if tk[0] == "f": u, w = s.fl.term(u) if isinstance(u, FC) and not same(u, w) else u, s.fl.term(w) if isinstance(w, FC) and not same(u, w) else w
            over[k] = ITE(ca, u, w)
        if all(p.eq(q) for p, q in zip(x.base, y.base)): base = x.base
        else: base = tuple(z3.If(ca, p, q) for p, q in zip(x.base, y.base))
        syms = x.syms + tuple(q for q in y.syms if q[0] not in [p[0] for p in x.syms])
        return Comp(base, over, syms)
    def nodeof(s, key):
        return s.find(s.nid[key[0]])

    # ================= expressions ==============================================
    def units(s, t):
        if t[0] == "a":
            u = s.units(t[1])
            if isinstance(t[2], int): return t[2] * u
            raise Unsupported("pointer to variable length array")
        return 1
    def inner(s, t):
        while t[0] == "a": t = t[1]
        return t
    def psize(s, t):
        t = s.inner(t)
        return 1 if t[0] in ("v", "fn") else s.prog.sizeof(t)

    def chk_access(s, st, g, obj, off, esz, what):
        if s.quiet or s.dry or not s.opt["safety"]: return
        sz = s.size(obj)
        c = AND(NOT(EQ(obj, 0)), LE(0, off), LE((off + 1) * esz, sz))
        s.oblige(st, g, c, "memory", "access within allocated object: " + what, s.cur, s.curfn)

    def lval(s, e, st, ctx, g):
        """-> ('v', key) or ('m', node, field, obj, off)"""
        if e.op == "sym":
            key = s.vkey(ctx, e.v)
            n = s.vnode(key)
            if (e.t[0] in ("s", "a", "u") or n.vaddr) and key not in s.halias:
                o = s.vobj.get(key)
                if o is None: o = s.vobject(key, e.t)
                if o is None: raise Unsupported("object " + key)
                return ("m", n, "", o, 0)
            return ("v", key)
        if e.op == "deref":
            p = s.ev(e.a[0], st, ctx, g)
            n = s.rav(e.a[0], ctx)
            if e.t[0] not in ("a", "v", "fn"):
                s.chk_access(st, g, p.obj, p.off, s.prog.sizeof(e.t), s.src(e))
            return ("m", n, "", p.obj, p.off)
        if e.op == "mem":
            l = s.lval(e.a[0], st, ctx, g)
            n = s.find(l[1])
            if e.t[0] in ("s", "a", "u") or e.v in n.addr:
                return ("m", s.kid(n, e.v), "", s.subobj(l[3], l[4], e.v, e.t), 0)
            return ("m", n, e.v, l[3], l[4])
        if e.op == "idx":
            at = e.a[0].t
            l = s.lval(e.a[0], st, ctx, g)
            i = s.ev(e.a[1], st, ctx, g)
            u = s.units(at[1])
            off = ADD(l[4], MULC(i, u))
            if not (s.quiet or s.dry) and s.opt["safety"]:
                if isinstance(at[2], int):
                    if at[2] > 0: s.oblige(st, g, AND(LE(0, i), LT(i, at[2])), "memory", "array index in range: " + s.src(e), s.cur, s.curfn)
                    if e.a[0].op == "deref" and u == 1: s.chk_access(st, g, l[3], off, s.psize(at), s.src(e))
                else:
                    s.chk_access(st, g, l[3], off, s.psize(at), s.src(e))
            return ("m", l[1], l[2], l[3], off)
        if e.op == "str":
            n, _ = s.rlv(e, ctx)
            return ("m", n, "", s.litobj(e.v), 0)
        if e.op == "cast": return s.lval(e.a[0], st, ctx, g)
        raise Unsupported("lvalue " + e.op)

    def litobj(s, v):
        return s.lits[v]

    def src(s, e):
        if e is None: return ""
        o = e.op
        if o == "sym": return e.v.split("::")[-1]
        if o == "deref": return "*" + s.src(e.a[0])
        if o == "mem":
            b = e.a[0]
            return s.src(b.a[0]) + "->" + e.v if b.op == "deref" else s.src(b) + "." + e.v
        if o == "idx": return "%s[%s]" % (s.src(e.a[0]), s.src(e.a[1]))
        if o == "cast": return s.src(e.a[0])
        if o == "const": return str(e.v)
        if o == "addr": return "&" + s.src(e.a[0])
        if o in ("+", "-", "*", "/"): return (" %s " % o).join(s.src(x) for x in e.a)
        return o + "(" + ",".join(s.src(x) for x in e.a) + ")"

    def rdvar(s, st, key, t):
        if s.holes is not None and key in s.holes: return s.holes[key]
        if key in st.v: return st.v[key]
        v = s.arb(key.split("::")[-1], t)
        st.v[key] = v
        return v
    def arb(s, name, t):
        """arbitrary value of a scalar type"""
        k = t[0]
        if k in ("i", "cb"):
            c = s.fresh(name, z3.IntSort())
            lo, hi = s.rng(s.tkey(t))
            s.fact(z3.And(c >= lo, c <= hi))
            s.symrng[c.get_id()] = (lo, hi); s.keep.append(c)
            return c
        if k == "b": return s.fresh(name, z3.BoolSort())
        if k == "f": return s.fresh(name, SORT[t[1]])
        if k == "p": return P(s.fresh(name + ".o", z3.IntSort()), s.fresh(name + ".f", z3.IntSort()))
        raise Unsupported("arbitrary value of type %s" % (t,))

    def rd(s, l, t, st, key=None):
        if l[0] == "v": return s.rdvar(st, l[1], t)
        return s.load(st, l[1], l[2], t, l[3], l[4])

    def norm(s, v, t, st, g, what, wrap):
        """bring an integer into the range of t"""
        if t[0] != "i": return v
        lo, hi = s.rng(t)
        if py(v):
            if lo <= v <= hi: return v
            if wrap or not s.opt["ovf"]:
                v &= (1 << t[1]) - 1
                return v - (1 << t[1]) if t[2] and v > hi else v
        if wrap:
            if isz(v):
                b = s.bnd(v)
                if b[0] is not None and b[1] is not None and lo <= b[0] and b[1] <= hi: return v
                if v.get_id() in s.bitmap:
                    q = s.bitmap[v.get_id()]
                    return s.frombits((list(q[1]) + [q[2]] * t[1])[:t[1]], t[2])
                m = 1 << t[1]
                if t[2]: w = (v + (1 << t[1] - 1)) % m - (1 << t[1] - 1)
                else: w = v % m
                return z3.If(z3.And(v >= lo, v <= hi), v, w)
        else:
            if s.opt["ovf"]:
                b = s.bnd(v) if isz(v) else (v, v)
                if not (b[0] is not None and b[1] is not None and lo <= b[0] and b[1] <= hi):
                    s.oblige(st, g, AND(LE(lo, v), LE(v, hi)), "overflow", "no signed overflow in " + what, s.cur, s.curfn)
            else: s.assumptions.add("signed integer arithmetic does not overflow (not checked in this unit)")
        return v

    def bnd(s, v, d=0):
        """cheap syntactic interval"""
        if not isz(v): return (v, v)
        i = v.get_id()
        r = s.bcache.get(i)
        if r is not None: return r[1]
        r = (None, None)
        if z3.is_int_value(v): r = (v.as_long(), v.as_long())
        elif d < 12:
            k = v.decl().kind()
            if k == z3.Z3_OP_ADD:
                bs = [s.bnd(c, d + 1) for c in v.children()]
                r = (None if any(b[0] is None for b in bs) else sum(b[0] for b in bs), None if any(b[1] is None for b in bs) else sum(b[1] for b in bs))
            elif k == z3.Z3_OP_SUB and v.num_args() == 2:
                a, b = s.bnd(v.arg(0), d + 1), s.bnd(v.arg(1), d + 1)
                r = (None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])
            elif k == z3.Z3_OP_ITE:
                a, b = s.bnd(v.arg(1), d + 1), s.bnd(v.arg(2), d + 1)
                r = (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
            elif k == z3.Z3_OP_MUL and v.num_args() == 2:
                a, b = s.bnd(v.arg(0), d + 1), s.bnd(v.arg(1), d + 1)
                if None not in a and None not in b:
                    q = [x * y for x in a for y in b]; r = (min(q), max(q))
            elif k == z3.Z3_OP_MOD and z3.is_int_value(v.arg(1)):
                r = (0, abs(v.arg(1).as_long()) - 1)
            elif k == z3.Z3_OP_SELECT:
                # typed memory: range of the component's element type
                a = v
                while z3.is_select(a) or z3.is_store(a) or (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE):
                    a = a.arg(0) if not (a.decl().kind() == z3.Z3_OP_ITE) else a.arg(1)
                if a.num_args() == 0 and a.get_id() in s.symrng: r = s.symrng[a.get_id()]
            elif v.num_args() == 0 and v.get_id() in s.symrng: r = s.symrng[v.get_id()]
        s.bcache[i] = (v, r)
        return r

    def mulz(s, a, b):
        if py(a) and py(b): return a * b
        if py(a): return b if a == 1 else a * b if a else 0
        if py(b): return a if b == 1 else a * b if b else 0
        if z3.is_int_value(a) or z3.is_int_value(b): return a * b
        if a.get_id() > b.get_id(): a, b = b, a
        M = s.fl.UF("imul", z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = M(a, b)
        k = ("mul", r.get_id())
        if k not in s.factkeys:
            s.factkeys.add(k); s.keep.append(r)
            s.fact(z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0), z3.Implies(a == 1, r == b), z3.Implies(b == 1, r == a),
                          z3.Implies(z3.And(a > 0, b > 0), z3.And(r >= a, r >= b)), z3.Implies(a == -1, r == -b), z3.Implies(b == -1, r == -a),
                          z3.Implies(z3.And(a >= 0, b <= 0), r <= 0), z3.Implies(z3.And(a <= 0, b >= 0), r <= 0), z3.Implies(z3.And(a <= 0, b <= 0), r >= 0),
                          z3.Implies(z3.And(a >= 0, a <= 46340, b >= 0, b <= 46340), r <= 46340 * 46340)), r)
            ba, bb = s.bnd(a), s.bnd(b)
            if None not in ba and None not in bb:
                q = [x * y for x in ba for y in bb]
                s.fact(z3.Implies(z3.And(a >= ba[0], a <= ba[1], b >= bb[0], b <= bb[1]), z3.And(r >= min(q), r <= max(q))), r)
                s.bcache[r.get_id()] = (r, (min(q), max(q)))
            # pairwise monotonicity with earlier products sharing a factor
            for (c, d, q) in s.mulist:
                for x, y in ((a, b), (b, a)):
                    for u, w in ((c, d), (d, c)):
                        if y.eq(w):
                            s.fact(z3.Implies(w >= 0, z3.And(z3.Implies(x < u, r + w <= q), z3.Implies(x > u, q + w <= r), z3.Implies(x == u, r == q),
                                                              z3.Implies(x == u + 1, r == q + w), z3.Implies(u == x + 1, q == r + w))), (r, q))
            s.mulist.append((a, b, r))
        return r

    def ev(s, e, st, ctx, g=True):
        op, t = e.op, e.t
        if op == "const": return e.v
        if op == "fconst": return FC(t[1], e.v)
        if op == "null": return NULLP
        if op in ("sym", "mem", "idx", "deref"):
            if op == "sym" and t[0] == "fn": return NULLP
            if t[0] == "a":
                l = s.lval(e, st, ctx, g); return P(l[3], l[4])
            return s.rd(s.lval(e, st, ctx, g), t, st)
        if op == "addr":
            x = e.a[0]
            if x.t and x.t[0] == "fn": return NULLP
            if x.op == "idx" and x.a[1].op in ("const", "cast"):
                pass
            s.addrof += 1
            try:
                l = s.lval_addr(x, st, ctx, g)
            finally: s.addrof -= 1
            return P(l[3], l[4])
        if op == "cast": return s.cast(e, st, ctx, g)
        if op in ("&&", "||", "=>"):
            vals = []
            h = g
            for x in e.a:
                v = s.ev(x, st, ctx, h)
                vals.append(v)
                if op == "||":
                    h = AND(h, NOT(v))
                    if v is True: return True
                elif op == "&&":
                    h = AND(h, v)
                    if v is False: return False
                else: h = AND(h, v)
            return AND(*vals) if op == "&&" else OR(*vals) if op == "||" else IMP(vals[0], vals[1])
        if op == "!": return NOT(s.ev(e.a[0], st, ctx, g))
        if op == "?":
            c = s.ev(e.a[0], st, ctx, g)
            if isinstance(c, bool): return s.ev(e.a[1 if c else 2], st, ctx, g)
            a = s.ev(e.a[1], st, ctx, AND(g, c)); b = s.ev(e.a[2], st, ctx, AND(g, NOT(c)))
            if t[0] == "f": a, b = s.fl.term(a), s.fl.term(b)
            return ITE(c, a, b)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            a, b = s.ev(e.a[0], st, ctx, g), s.ev(e.a[1], st, ctx, g)
            ta = e.a[0].t
            if ta[0] == "f": return s.fl.cmp(op, a, b)
            if ta[0] == "p":
                if e.a[0].op == "null" or e.a[1].op == "null" or (isinstance(a, P) and a.obj == 0 and py(a.obj)) or (isinstance(b, P) and py(b.obj) and b.obj == 0):
                    r = EQ(a.obj, b.obj)
                else: r = AND(EQ(a.obj, b.obj), EQ(a.off, b.off))
                if op == "==": return r
                if op == "!=": return NOT(r)
                a, b = a.off, b.off
            elif ta[0] == "i" and not s.nofold and (isz(a) or isz(b)):
                # decided by the ranges of the operands alone
                (al, ah), (bl, bh) = s.bnd(a), s.bnd(b)
                lt, ge = ah is not None and bl is not None and ah < bl, al is not None and bh is not None and al >= bh
                le, gt = ah is not None and bl is not None and ah <= bl, al is not None and bh is not None and al > bh
                if op == "<" and (lt or ge): return lt
                if op == ">=" and (lt or ge): return ge
                if op == "<=" and (le or gt): return le
                if op == ">" and (le or gt): return gt
                if op in ("==", "!=") and (lt or gt): return op == "!="
            if op == "==": return EQ(a, b)
            if op == "!=": return NOT(EQ(a, b))
            return a < b if op == "<" else a <= b if op == "<=" else a > b if op == ">" else a >= b
        if op == "neg":
            a = s.ev(e.a[0], st, ctx, g)
            if t[0] == "f": return s.fl.neg(a)
            return s.norm(-a, t, st, g, s.src(e), not t[2])
        if op == "pos": return s.ev(e.a[0], st, ctx, g)
        if op in ("+", "-", "*", "/", "%"):
            if t[0] == "p":
                pi = 0 if e.a[0].t[0] == "p" else 1
                p = s.ev(e.a[pi], st, ctx, g); i = s.ev(e.a[1 - pi], st, ctx, g)
                u = s.units(t[1])
                i = MULC(i, u)
                return P(p.obj, ADD(p.off, i) if op == "+" else SUB(p.off, i))
            vs = [s.ev(x, st, ctx, g) for x in e.a]
            if e.a[0].t[0] == "p":      # pointer difference
                d = vs[0].off - vs[1].off
                return d
            if t[0] == "f":
                r = vs[0]
                for x in vs[1:]: r = s.fl.bin(op, r, x, t[1])
                return r
            r = vs[0]
            for k, x in enumerate(vs[1:]):
                r = s.iop(op, r, x, t, st, g, e)
            return r
        if op in ("&", "|", "^", "shl", "ashr", "lshr"):
            vs = [s.ev(x, st, ctx, g) for x in e.a]
            r = vs[0]
            if t[0] in ("b",):
                for x in vs[1:]: r = AND(r, x) if op == "&" else OR(r, x) if op == "|" else NOT(EQ(r, x))
                return r
            for x in vs[1:]: r = s.bitop(op, r, x, t, st, g, e)
            return r
        if op == "~":
            a = s.ev(e.a[0], st, ctx, g)
            return s.norm(-a - 1, t, st, g, "~", True)
        if op == "nondet": return s.arb("nondet", t)
        if op == "isnan": return s.fl.nan(s.ev(e.a[0], st, ctx, g))
        if op == "isinf": return s.fl.isinf(s.ev(e.a[0], st, ctx, g))
        if op == "isfinite":
            a = s.ev(e.a[0], st, ctx, g); return AND(NOT(s.fl.isinf(a)), NOT(s.fl.nan(a)))
        if op == "abs":
            a = s.ev(e.a[0], st, ctx, g)
            if t[0] == "f": return s.fl.math("fabs", [a], t[1])
            return ITE(a >= 0, a, -a) if isz(a) else abs(a)
        if op == "xor":
            a, b = s.ev(e.a[0], st, ctx, g), s.ev(e.a[1], st, ctx, g)
            return NOT(EQ(a, b))
        raise Unsupported("expression " + op)

    def lval_addr(s, x, st, ctx, g):
        """lvalue whose address is taken: forming the address is not an access"""
        if x.op == "mem":
            l = s.lval(x.a[0], st, ctx, g)
            n = s.find(l[1])
            return ("m", s.kid(n, x.v), "", s.subobj(l[3], l[4], x.v, x.t), 0)
        if x.op == "idx":
            at = x.a[0].t
            l = s.lval(x.a[0], st, ctx, g)
            i = s.ev(x.a[1], st, ctx, g)
            u = s.units(at[1])
            return ("m", l[1], l[2], l[3], ADD(l[4], MULC(i, u)))
        if x.op == "deref":
            p = s.ev(x.a[0], st, ctx, g)
            return ("m", None, "", p.obj, p.off)
        return s.lval(x, st, ctx, g)

    def iop(s, op, a, b, t, st, g, e):
        w = t[0] == "i" and not t[2]
        if op == "+": r = ADD(a, b)
        elif op == "-": r = SUB(a, b)
        elif op == "*": r = s.mulz(a, b)
        else:
            if s.opt["divzero"]: s.oblige(st, g, NOT(EQ(b, 0)), "division", "divisor is not zero in " + s.src(e), s.cur, s.curfn)
            if py(a) and py(b):
                if b == 0: return 0
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == "/" else a - q * b
            elif py(b) and b != 0:
                ab = abs(b)
                na = s.bnd(a)
                if na[0] is not None and na[0] >= 0 and b > 0 and ab & (ab - 1) == 0 and a.get_id() in s.bitmap:
                    k = ab.bit_length() - 1
                    bs = list(s.bitmap[a.get_id()][1])
                    return s.frombits(bs[k:] or [0], False) if op == "/" else s.frombits(bs[:k] or [0], False)
                if na[0] is not None and na[0] >= 0: q = a / ab
                else: q = z3.If(a >= 0, a / ab, -((-a) / ab))
                if b < 0: q = -q
                r = q if op == "/" else a - q * b
            else:
                D = s.fl.UF("idiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
                A, B = s.I(a), s.I(b)
                if z3.is_int_value(A) and A.as_long() == 0: return 0
                q = D(A, B)
                k = ("div", q.get_id())
                m = s.mulz(q, B)
                if k not in s.factkeys:
                    s.factkeys.add(k); s.keep.append(q)
                    ba, bb = s.bnd(a), s.bnd(b)
                    if None not in ba:
                        lo = 0 if ba[0] >= 0 and bb[0] is not None and bb[0] >= 0 else -max(abs(ba[0]), abs(ba[1]))
                        s.bcache[q.get_id()] = (q, (lo, max(abs(ba[0]), abs(ba[1]))))
                        s.fact(z3.And(q >= lo, q <= max(abs(ba[0]), abs(ba[1]))), q)
                    s.fact(z3.Implies(z3.And(A >= 0, B > 0), z3.And(q >= 0, q <= A, m <= A, A < m + B)), q)
                    s.fact(z3.Implies(z3.And(A <= 0, B > 0), z3.And(q <= 0, q >= A, m >= A, A > m - B)), q)
                    s.fact(z3.Implies(z3.And(A >= 0, B < 0), z3.And(q <= 0, m <= A, A < m - B)), q)
                    s.fact(z3.Implies(z3.And(A <= 0, B < 0), z3.And(q >= 0, m >= A, A > m + B)), q)
                r = q if op == "/" else A - m
        return s.norm(r, t, st, g, s.src(e), w)

    def bitop(s, op, a, b, t, st, g, e):
        W = t[1] if t[0] == "i" else 8
        sg = t[2] if t[0] == "i" else False
        if py(a) and py(b):
            if op == "&": r = a & b
            elif op == "|": r = a | b
            elif op == "^": r = a ^ b
            elif op == "shl": r = a << b if 0 <= b < 64 else 0
            else: r = a >> b if 0 <= b < 64 else 0
            r &= (1 << W) - 1
            return r - (1 << W) if sg and r >> (W - 1) else r
        if op == "shl":
            if py(b):
                if isz(a) and a.get_id() in s.bitmap:
                    q = s.bitmap[a.get_id()]
                    return s.frombits(([0] * b + list(q[1]) + [q[2]] * W)[:W], sg)
                r = a * (1 << b)
            else:
                p = s.pow2(b, W)
                r = s.mulz(s.I(a), p) if not py(a) else a * p
            return s.norm(r, t, st, g, "shift", True)
        if op in ("ashr", "lshr"):
            if py(b):
                if isz(a): return s.frombits((s.bits(a, W, sg) + [s.bits(a, W, sg)[-1] if sg else 0] * b)[b:b + W], sg)
                r = a >> b
            else:
                r = z3.IntVal(0)
                A = s.I(a)
                for k in range(W - 1, -1, -1): r = z3.If(b == k, A / (1 << k), r)
            return r
        A, B = s.bits(a, W, sg), s.bits(b, W, sg)
        if op == "&": r = [s.band(x, y) for x, y in zip(A, B)]
        elif op == "|": r = [s.bor(x, y) for x, y in zip(A, B)]
        else: r = [s.bxor(x, y) for x, y in zip(A, B)]
        return s.frombits(r, sg)

    # ---- bits: an integer term as a list of 0/1 integer terms (two's complement, least significant first)
    def band(s, x, y):
        if py(x): return y if x else 0
        if py(y): return x if y else 0
        return x if x.eq(y) else z3.If(z3.And(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0))
    def bor(s, x, y):
        if py(x): return 1 if x else y
        if py(y): return 1 if y else x
        return x if x.eq(y) else z3.If(z3.Or(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0))
    def bxor(s, x, y):
        if py(x) and py(y): return x ^ y
        if py(x): return 1 - y if x else y
        if py(y): return 1 - x if y else x
        return 0 if x.eq(y) else z3.If(x == y, z3.IntVal(0), z3.IntVal(1))
    def bits(s, v, W, sg):
        if py(v): return [(v >> k) & 1 for k in range(W)]
        r = s.bitmap.get(v.get_id())
        if r is None:
            b = s.bnd(v)
            lo, hi = (b[0], b[1]) if None not in b else s.rng(("i", W, sg))
            n = 0
            while not ((lo >= 0 or lo >= -(1 << n)) and hi < (1 << n)): n += 1
            bs = []
            for k in range(n):
                x = z3.Function("bit%d" % k, z3.IntSort(), z3.IntSort())(v)
                s.fact(z3.And(x >= 0, x <= 1)); s.bcache[x.get_id()] = (x, (0, 1)); s.keep.append(x)
                bs.append(x)
            sgn = 0
            if lo < 0:
                sgn = z3.Function("signbit", z3.IntSort(), z3.IntSort())(v)
                s.fact(z3.And(sgn >= 0, sgn <= 1)); s.bcache[sgn.get_id()] = (sgn, (0, 1)); s.keep.append(sgn)
            t = z3.Sum([x * (1 << k) for k, x in enumerate(bs)] + [sgn * -(1 << n)]) if bs or not py(sgn) else z3.IntVal(0)
            s.fact(v == t)
            r = (v, bs, sgn)
            s.bitmap[v.get_id()] = r
        bs, sgn = r[1], r[2]
        return (list(bs) + [sgn] * W)[:W]
    def frombits(s, bs, sg):
        W = len(bs)
        top = bs[-1] if sg else 0
        body = list(bs[:-1]) if sg else list(bs)
        while body and same(body[-1], top): body.pop()
        n = len(body)
        if all(py(x) for x in body) and py(top): return sum(x << k for k, x in enumerate(body)) - (top << n)
        c = sum(x << k for k, x in enumerate(body) if py(x)) - ((top << n) if py(top) else 0)
        ts = [x * (1 << k) for k, x in enumerate(body) if not py(x)] + ([top * -(1 << n)] if not py(top) else [])
        r = z3.Sum(ts + [z3.IntVal(c)]) if c or len(ts) > 1 else ts[0]
        if r.get_id() not in s.bitmap:
            s.bitmap[r.get_id()] = (r, body, top)
            hi = sum((1 if not py(x) else x) << k for k, x in enumerate(body)); lo = sum((x if py(x) else 0) << k for k, x in enumerate(body))
            if py(top): lo, hi = lo - (top << n), hi - (top << n)
            else: lo -= 1 << n
            s.bcache[r.get_id()] = (r, (lo, hi))
        return r

    def pow2(s, b, W):
        r = z3.IntVal(1 << (W - 1))
        for k in range(W - 2, -1, -1): r = z3.If(b == k, z3.IntVal(1 << k), r)
        s.bcache[r.get_id()] = (r, (1, 1 << (W - 1)))
        return r

    def cast(s, e, st, ctx, g):
        t, x = e.t, e.a[0]
        f = x.t
        if t[0] == "v":
            return 0
        if t[0] == "p":
            if f[0] == "p":
                p = s.ev(x, st, ctx, g)
                if py(p.off) and p.off == 0: return p
                a, b = s.psize(f[1]), s.psize(t[1])
                if s.inner(f[1])[0] in ("v", "fn") or s.inner(t[1])[0] in ("v", "fn") or a == b: return p
                raise Unsupported("pointer cast changing element size at non-zero offset")
            if f[0] == "a":
                l = s.lval(x, st, ctx, g); return P(l[3], l[4])
            v = s.ev(x, st, ctx, g)
            if py(v) and v == 0: return NULLP
            return s.arb("ptr", t)
        if f[0] == "p":
            p = s.ev(x, st, ctx, g)
            if t[0] in ("b", "cb"):
                c = NOT(EQ(p.obj, 0))
                return c if t[0] == "b" else ITE(c, 1, 0)
            return s.arb("ptrint", t)
        v = s.ev(x, st, ctx, g)
        if t[0] == "f":
            if f[0] == "f": return s.fl.f2f(v, t[1])
            if f[0] == "b": v = ITE(v, 1, 0)
            return s.fl.i2f(v, t[1])
        if t[0] in ("b", "cb"):
            if f[0] == "b": c = v
            elif f[0] == "f": c = NOT(s.fl.cmp("==", v, FC(f[1], 0)))
            else: c = NOT(EQ(v, 0))
            return c if t[0] == "b" else ITE(c, 1, 0)
        if t[0] == "i":
            if f[0] == "b": return ITE(v, 1, 0)
            if f[0] == "f":
                lo, hi = s.rng(t)
                if s.opt["fcast"] and not (s.quiet or s.dry):
                    V = s.fl.val(v)
                    s.oblige(st, g, AND(NOT(s.fl.nan(v)), V > lo - 1, V < hi + 1), "fcast", "float value fits the integer type in " + s.src(e), s.cur, s.curfn)
                return s.fl.f2i(v, lo, hi, "%d%s" % (t[1], "su"[not t[2]]))
            return s.norm(v, t, st, g, "conversion", True)
        if t[0] == "s" or t[0] == "u": return v
        raise Unsupported("cast %s -> %s" % (f, t))

    # ================= statements ===============================================
    def assign(s, e, v, st, ctx, g=True):
        l = s.lval(e, st, ctx, g)
        s.wr(l, e.t, v, st)
    def wr(s, l, t, v, st):
        if l[0] == "v":
            for r in s.recs: r[0].add((l[1], t))
            if t[0] == "f" and False: v = s.fl.term(v)
            st.v[l[1]] = v
            return
        s.store(st, l[1], l[2], t, l[3], l[4], v)
    def copy_agg(s, t, la, lb, st):
        """aggregate copy lb -> la, both ('m',node,'',obj,off)"""
        if t[0] == "s":
            for f, ft in s.prog.fields(t[1]):
                if f.startswith("$"): continue
                a = s.sub_l(la, f, ft); b = s.sub_l(lb, f, ft)
                if ft[0] in ("s", "a"): s.copy_agg(ft, a, b, st)
                elif ft[0] == "u": raise Unsupported("union copy")
                else: s.wr(a, ft, s.rd(b, ft, st), st)
        elif t[0] == "a":
            if not isinstance(t[2], int) or t[2] > 64:
                # copy whole inner arrays
                it = s.inner(t)
                if it[0] in ("s", "u"): raise Unsupported("large aggregate copy")
                if not (py(la[4]) and la[4] == 0 and py(lb[4]) and lb[4] == 0): raise Unsupported("array copy at offset")
                ka, kb = s.ckey(la[1], "", it), s.ckey(lb[1], "", it)
                ca, cb = s.flush(ka, s.comp(st, ka)), s.flush(kb, s.comp(st, kb))
                o, q = s.I(la[3]), s.I(lb[3])
                for r in s.recs: r[1].setdefault(ka, []).append((la[3], None))
                st.m[ka] = Comp(tuple(z3.Store(x, o, z3.Select(y, q)) for x, y in zip(ca.base, cb.base)), {}, ca.syms + tuple(z for z in cb.syms if z not in ca.syms))
                return
            u = s.units(t[1])
            for i in range(t[2]):
                a = la[:4] + (la[4] + i * u,); b = lb[:4] + (lb[4] + i * u,)
                if t[1][0] in ("s", "a"): s.copy_agg(t[1], a, b, st)
                else: s.wr(a, t[1], s.rd(b, t[1], st), st)
        else: raise Unsupported("aggregate copy")
    def sub_l(s, l, f, ft):
        n = s.find(l[1])
        if ft[0] in ("s", "a", "u") or f in n.addr:
            return ("m", s.kid(n, f), "", s.subobj(l[3], l[4], f, ft), 0)
        return ("m", n, f, l[3], l[4])

    def init_agg(s, t, l, x, st):
        """initialise from an initialiser expression (None = zero)"""
        if x is not None:
            while x.op == "cast" and t[0] not in ("i", "f", "cb", "p"): x = x.a[0]
        if t[0] == "s":
            fs = s.prog.fields(t[1])
            for k, (f, ft) in enumerate(fs):
                if f.startswith("$") or ft[0] == "u": continue
                y = x.a[k] if x is not None and x.op == "struct" else None
                s.init_agg(ft, s.sub_l(l, f, ft), y, st)
        elif t[0] == "a":
            n = t[2]
            if not isinstance(n, int) or n > 5000: return
            u = s.units(t[1])
            if x is not None and x.op == "str":
                bs = x.v.encode("latin-1", "replace") + b"\0" * n
                for i in range(n): s.wr(l[:4] + (l[4] + i,), t[1], bs[i] if bs[i] < 128 or not t[1][2] else bs[i] - 256, st)
                return
            for i in range(n):
                y = None
                if x is not None and x.op == "array" and i < len(x.a): y = x.a[i]
                if x is not None and x.op == "array_of": y = x.a[0]
                s.init_agg(t[1], l[:4] + (l[4] + i * u,), y, st)
        elif t[0] == "u": return
        else:
            if x is None or x.op == "unsupported:nil": v = s.zeroval(t)
            else: v = s.ev(x, st, "", True)
            s.wr(l, t, v, st)
    def zeroval(s, t):
        if t[0] in ("i", "cb"): return 0
        if t[0] == "b": return False
        if t[0] == "f": return FC(t[1], 0)
        if t[0] == "p": return NULLP
        raise Unsupported("zero of %s" % (t,))

    def refs(s, fn, seen, syms, lits):
        if fn in seen or not s.prog.has(fn): return
        seen.add(fn)
        ins, _ = s.prog.func(fn)
        def walk(e):
            if e is None: return
            if e.op == "sym" and s.isglobal(e.v): syms[e.v] = e.t
            if e.op == "str": lits.add((e.v, e.t))
            for x in e.a: walk(x)
        for i in ins:
            for e in (i.lhs, i.x, i.guard) + tuple(i.args): walk(e)
            if i.kind == "FUNCTION_CALL" and i.fn.op == "sym": s.refs(s.callee(i.fn.v), seen, syms, lits)

    def run(s, main="main"):
        s.analyse(main)
        st = St({}, {}, (), DYN)
        syms, lits = {}, set()
        seen = set()
        s.refs(main, seen, syms, lits)
        for f in s.opt.get("extra_roots", ()): s.refs(f, seen, syms, lits)
        done = set()
        while True:
            todo = [v for v in sorted(syms) if v not in done]
            if not todo: break
            for v in todo:
                done.add(v)
                j = s.prog.sym[v]
                t = s.prog.T(j["type"]) if "type" in j else syms[v]
                val = j.get("value")
                if j.get("isExtern") and (val is None or val.get("id") in ("nil", "")): continue
                x = None
                if val is not None and val.get("id") not in ("nil", "") and val.get("id"):
                    x = s.prog.E(val)
                if x is not None:
                    def walk(e):
                        if e is None: return
                        if e.op == "sym" and s.isglobal(e.v): syms.setdefault(e.v, e.t)
                        if e.op == "str": lits.add((e.v, e.t))
                        if e.op == "addr": 
                            try: s.rav(e, "")
                            except Unsupported: pass
                        for y in e.a: walk(y)
                    walk(x)
        # initialisers may contain pointers: link regions first
        for v in sorted(syms):
            j = s.prog.sym[v]; val = j.get("value")
            if val is not None and val.get("id") not in ("nil", "") and val.get("id"):
                s.link_init(s.prog.T(j["type"]), s.vnode(v), s.prog.E(val))
        s.analyse(main)
        for (v, t) in sorted(lits, key=lambda z: z[0]):
            n = Node() if v not in s.litnodes else s.litnodes[v]
            if v not in s.litnodes: n.lit = [v]; s.litnodes[v] = n
            bs = v.encode("latin-1", "replace")
            o = s.newobj(len(bs) + 1, "literal")
            s.lits[v] = o
            for i, b in enumerate(bs + b"\0"): s.store(st, n, "", ("i", 8, True), o, i, b if b < 128 else b - 256)
        for v in sorted(syms):
            j = s.prog.sym[v]
            t = s.prog.T(j["type"])
            val = j.get("value")
            if j.get("isExtern") and (val is None or val.get("id") in ("nil", "")): continue
            if t[0] == "a" and t[2] is None: continue
            x = s.prog.E(val) if val is not None and val.get("id") not in ("nil", "") and val.get("id") else None
            n = s.vnode(v)
            if t[0] in ("s", "a", "u") or n.vaddr: l = ("m", n, "", s.vobject(v, t), 0)
            else: l = ("v", v)
            s.init_agg(t, l, x, st)
        s.nidx()
        st0 = s.call(main, "", [], st)
        s.final = st0
        return st0
    def link_init(s, t, n, x):
        if x is None: return
        if t[0] == "p":
            if x.t[0] == "p":
                s.union(s.fld(n, ""), s.rav(x, ""))
        elif t[0] == "a":
            if x.op == "array":
                for y in x.a:
                    if t[1][0] == "p": s.union(s.fld(n, ""), s.rav(y, ""))
                    else: s.link_init(t[1], n, y)
        elif t[0] == "s" and x.op == "struct":
            for (f, ft), y in zip(s.prog.fields(t[1]), x.a):
                if ft[0] == "p" and y is not None and y.t[0] == "p": s.union(s.loc_fld(n, f), s.rav(y, ""))
                elif ft[0] in ("s", "a"): s.link_init(ft, s.kid(n, f), y)
    def nidx(s):
        pass

    def find(s, n):
        while n.p is not None:
            if n.p.p is not None: n.p = n.p.p
            n = n.p
        s.nid[n.id] = n
        return n

    # ---- calls ---------------------------------------------------------------
    def call(s, fn, ctx, args, st):
        ins, params = s.prog.func(fn)
        if not s.dry and not s.quiet:
            s.funcs_seen[fn] = s.funcs_seen.get(fn, 0) + 1
            if fn == "run": s.assume_all(st)
        for p, a in zip(params, args):
            t = s.prog.T(s.prog.sym[p]["type"])
            key = ctx + ":" + p
            n = s.vnode(key)
            if t[0] == "s":
                o = s.vobject(key, t)
                s.copy_agg(t, ("m", n, "", o, 0), a, st)
            elif n.vaddr:
                s.wr(("m", n, "", s.vobject(key, t), 0), t, a, st)
            else: s.wr(("v", key), t, a, st)
        sv = s.cur, s.curfn
        s.curfn = fn
        exits = {}
        pend = {0: [st]}
        fin = s.block(ins, ctx, fn, 0, len(ins) - 1, pend, exits, None)
        s.cur, s.curfn = sv
        if exits: raise Unsupported("irregular control flow in " + fn)
        return fin

    def loops(s, fn, ins):
        if fn in s.loopsc: return s.loopsc[fn]
        L = {}
        for k, i in enumerate(ins):
            if i.kind == "GOTO":
                for t in i.targets:
                    if t <= k: L[t] = max(L.get(t, 0), k)
        s.loopsc[fn] = L
        return L

    def block(s, ins, ctx, fn, lo, hi, pend, exits, curloop):
        """execute instructions lo..hi; pend: index -> states. Jumps out go to exits.
        Returns the state reaching END_FUNCTION (if in range)."""
        L = s.loops(fn, ins)
        k = lo
        ret = None
        while k <= hi:
            sts = pend.pop(k, None)
            if not sts:
                k += 1; continue
            st = sts[0]
            for x in sts[1:]: st = s.merge(st, x)
            if any(c is False for c in st.pc):
                k += 1; continue
            if k in L and k != curloop:
                end = L[k]
                if end > hi: raise Unsupported("overlapping loops in " + fn)
                ex = {}
                s.loop(ins, ctx, fn, k, end, st, ex)
                for t, ss in ex.items():
                    if lo <= t <= hi and t > k and t > end: pend.setdefault(t, []).extend(ss)
                    elif lo <= t <= hi and t > k: raise Unsupported("jump into loop in " + fn)
                    else: exits.setdefault(t, []).extend(ss)
                k = end + 1
                continue
            i = ins[k]
            s.cur = i
            nxt = s.step(i, k, st, ctx, fn)
            for (t, x) in nxt:
                if t == "end":
                    ret = x
                elif lo <= t <= hi and t > k: pend.setdefault(t, []).append(x)
                else: exits.setdefault(t, []).append(x)
            k += 1
        return ret

    def step(s, i, k, st, ctx, fn):
        kd = i.kind
        if kd == "ASSIGN":
            if i.lhs.t[0] in ("s", "a"):
                l = s.lval(i.lhs, st, ctx, True)
                if i.x.op == "nondet": s.havoc_agg(l, i.lhs.t, st)
                elif i.x.op in ("struct", "array", "array_of"): s.init_expr(i.lhs.t, l, i.x, st, ctx)
                else: s.copy_agg(i.lhs.t, l, s.lval(i.x, st, ctx, True), st)
            elif i.lhs.t[0] == "u": raise Unsupported("union assignment")
            else:
                v = s.ev(i.x, st, ctx, True)
                s.assign(i.lhs, v, st, ctx)
            return [(k + 1, st)]
        if kd == "GOTO":
            c = s.ev(i.guard, st, ctx, True) if i.guard is not None else True
            t = i.targets[0]
            if c is True: return [(t, st)]
            if c is False: return [(k + 1, st)]
            a = st.copy(); a.pc = st.pc + (c,)
            b = st; b.pc = st.pc + (NOT(c),)
            return [(t, a), (k + 1, b)]
        if kd == "DECL":
            key = s.vkey(ctx, i.lhs.v)
            t = i.lhs.t
            n = s.vnode(key)
            if t[0] in ("s", "a", "u") or n.vaddr:
                if t[0] == "a" and not isinstance(t[2], int):
                    # variable length array
                    sz = s.ev(t[2], st, ctx, True) if t[2] is not None else 0
                    u = s.units(t[1]) * s.psize(t[1])
                    if key not in s.vobj: s.vobj[key] = s.newobj(sz * u, key)
                    else: s.vobj[key] = s.newobj(sz * u, key)
                o = s.vobject(key, t)
                for ck in list(st.m):
                    if ck[0] == s.find(n).id: s.havoc_obj(st, ck, o)
                if t[0] in ("s", "a"): pass
            else:
                st.v.pop(key, None)
                v = s.arb(i.lhs.v.split("::")[-1], t)
                for r in s.recs: r[0].add((key, t))
                st.v[key] = v
            return [(k + 1, st)]
        if kd in ("SKIP", "LOCATION", "DEAD", "OTHER"):
            return [(k + 1, st)]
        if kd == "FUNCTION_CALL":
            r = s.docall(i, k, st, ctx, fn)
            if r is None: return []
            return [(k + 1, r)]
        if kd == "SET_RETURN_VALUE":
            if i.x is not None:
                if i.x.t[0] == "s":
                    key = ctx + ":#ret"
                    s.copy_agg(i.x.t, ("m", s.vnode(key), "", s.vobject(key, i.x.t), 0), s.lval(i.x, st, ctx, True), st)
                else:
                    v = s.ev(i.x, st, ctx, True)
                    st.v[ctx + ":#ret"] = v
                    for r in s.recs: r[0].add((ctx + ":#ret", i.x.t))
            return [(k + 1, st)]
        if kd == "ASSUME":
            c = s.ev(i.guard, st, ctx, True)
            if c is False: return []
            if not s.dry and not s.quiet: s.assume(st, True, c)
            return [(k + 1, st)]
        if kd == "ASSERT":
            c = s.ev(i.guard, st, ctx, True)
            s.doassert(st, c, i.msg, i, fn)
            return [(k + 1, st)]
        if kd == "END_FUNCTION":
            return [("end", st)]
        raise Unsupported("instruction " + kd)

    def doassert(s, st, c, msg, i, fn):
        if s.collect is not None:
            s.collect.append((msg, IMP(AND(*st.pc), c)))
            return
        s.oblige(st, True, c, "contract", msg or "assertion", i, fn)

    def havoc_agg(s, l, t, st):
        if t[0] == "s":
            for f, ft in s.prog.fields(t[1]):
                if f.startswith("$"): continue
                x = s.sub_l(l, f, ft)
                if ft[0] in ("s", "a"): s.havoc_agg(x, ft, st)
                elif ft[0] == "u": raise Unsupported("havoc of union")
                else: s.wr(x, ft, s.arb(f, ft), st)
        elif t[0] == "a":
            it = s.inner(t)
            if it[0] == "s": raise Unsupported("havoc of struct array")
            k = s.ckey(l[1], "", it)
            for r in s.recs: r[1].setdefault(k, []).append((l[3], None))
            s.havoc_obj(st, k, l[3])

    def init_expr(s, t, l, x, st, ctx):
        if t[0] == "s" and x.op == "struct":
            for (f, ft), y in zip(s.prog.fields(t[1]), x.a):
                if f.startswith("$"): continue
                s.init_expr(ft, s.sub_l(l, f, ft), y, st, ctx)
        elif t[0] == "a" and x.op in ("array", "array_of"):
            u = s.units(t[1])
            if not isinstance(t[2], int): raise Unsupported("initialiser of variable array")
            for i in range(t[2]):
                y = x.a[0] if x.op == "array_of" else x.a[i] if i < len(x.a) else None
                if y is None: continue
                s.init_expr(t[1], l[:4] + (l[4] + i * u,), y, st, ctx)
        elif t[0] in ("s", "a"):
            if x.op == "str": s.init_agg(t, l, x, st)
            elif x.op == "nondet": s.havoc_agg(l, t, st)
            else: s.copy_agg(t, l, s.lval(x, st, ctx, True), st)
        elif t[0] == "u": return
        else: s.wr(l, t, s.ev(x, st, ctx, True), st)

    def docall(s, i, k, st, ctx, fn):
        if i.fn.op != "sym": raise Unsupported("call through pointer in " + fn)
        nm = s.callee(i.fn.v)
        c = ctx + "/" + nm + "@%d" % k
        if nm in s.BUILT or nm in s.QUIETCALLS or s.ismath(nm):
            return s.builtin(nm, i, st, ctx, c, fn)
        if nm.startswith("rec_"):
            args = [s.ev(a, st, ctx, True) for a in i.args]
            v = s.rec(nm, args, st)
            if i.lhs is not None: s.assign(i.lhs, v, st, ctx)
            return st
        if nm == "run" and fn == "main": s.snap = st.copy()
        if s.prog.has(nm):
            args = []
            for a in i.args:
                if a.t[0] == "s": args.append(s.lval(a, st, ctx, True))
                elif a.t[0] == "a":
                    l = s.lval(a, st, ctx, True); args.append(P(l[3], l[4]))
                else: args.append(s.ev(a, st, ctx, True))
            r = s.call(nm, c, args, st)
            s.cur, s.curfn = i, fn
            if r is None: return None
            if i.lhs is not None:
                if i.lhs.t[0] == "s":
                    key = c + ":#ret"
                    s.copy_agg(i.lhs.t, s.lval(i.lhs, r, ctx, True), ("m", s.vnode(key), "", s.vobject(key, i.lhs.t), 0), r)
                else:
                    v = r.v.get(c + ":#ret")
                    if v is None: v = s.arb("ret", i.lhs.t)
                    s.assign(i.lhs, v, r, ctx)
            return r
        # no body: only allowed when it cannot write through a pointer
        if any(a.t[0] == "p" for a in i.args) and nm not in s.opt.get("pure", ()):
            raise Unsupported("no body and no contract for function " + nm + " called in " + fn)
        s.assumptions.add("function %s has no side effects and returns any value of its type" % nm)
        if i.lhs is not None:
            if i.lhs.t[0] == "p": raise Unsupported("pointer result of unknown function " + nm)
            s.assign(i.lhs, s.arb(nm, i.lhs.t), st, ctx)
        return st

    # ---- ghost recursive functions -------------------------------------------
    def rec(s, nm, args, st):
        ins, ps = s.prog.func(nm)
        rt = None
        if nm not in s.recuf:
            # which components does the definition read?
            s.recuf[nm] = {"reads": None}
            sv = s.loadrec; s.loadrec = set()
            s.dry += 1
            s.recuf[nm]["probe"] = True
            tmp = st.copy()
            s.recbody(nm, args, tmp)
            s.recuf[nm]["probe"] = False
            s.dry -= 1
            s.recuf[nm]["reads"] = sorted(s.loadrec, key=str); s.loadrec = sv
        d = s.recuf[nm]
        rt = d.get("rt") or s.rettype(nm)
        d["rt"] = rt
        if d.get("probe"): return s.zeroval(rt)
        if s.loadrec is not None: s.loadrec.update(d["reads"])
        gl = []
        for key in d["reads"]: 
            cc = s.comp(st, key)
            if cc.over:
                cc = s.flush(key, cc)
            gl += [b.get_id() for b in cc.base]; s.keep += list(cc.base)
        gv = tuple(sorted(s.globals_read(nm)))
        gvals = [st.v.get(x) for x in gv]
        ver = (tuple(gl),)
        vid = d.setdefault("vers", {}).setdefault(ver, len(d.get("vers", {})))
        sorts = []
        zargs = []
        for a, p in list(zip(args, ps)) + list(zip(gvals, gv)):
            if isinstance(a, P): 
                zargs += [s.I(a.obj), s.I(a.off)]; sorts += [z3.IntSort()] * 2
            elif isinstance(a, FC) or (isz(a) and a.sort().name().startswith("F")):
                zargs.append(s.fl.term(a)); sorts.append(zargs[-1].sort())
            elif a is None: raise Unsupported("global unset in " + nm)
            elif isinstance(a, bool): zargs.append(z3.BoolVal(a)); sorts.append(z3.BoolSort())
            else: zargs.append(s.I(a)); sorts.append(zargs[-1].sort())
        rs = SORT[rt[1]] if rt[0] == "f" else z3.IntSort()
        F = s.fl.UF("%s#%d" % (nm, vid), *(sorts + [rs]))
        app = F(*zargs)
        k = ("rec", app.get_id())
        if k not in s.recdone and s.recdepth < s.opt.get("recdepth", 1):
            s.recdone.add(k); s.keep.append(app)
            s.recdepth += 1
            tmp = st.copy(); tmp.pc = ()
            s.quiet += 1
            sd = s.dry; s.dry = 0
            v = s.recbody(nm, args, tmp)
            s.dry = sd
            s.quiet -= 1
            s.recdepth -= 1
            if rt[0] == "f": v = s.fl.term(v)
            s.fact(app == v, app)
        if rt[0] in ("i", "cb"):
            kk = ("recr", app.get_id())
            if kk not in s.recdone:
                s.recdone.add(kk); s.keep.append(app)
                lo, hi = s.rng(s.tkey(rt))
                s.fact(z3.And(app >= lo, app <= hi))
                s.bcache[app.get_id()] = (app, (lo, hi))
        return app
    def recbody(s, nm, args, st):
        sv = s.holes, s.collect
        s.collect = None
        r = s.call(nm, "/#" + nm, args, st)
        s.holes, s.collect = sv
        return r.v["/#" + nm + ":#ret"]
    def rettype(s, nm):
        j = s.prog.sym[nm]["type"]
        return s.prog.T(j["namedSub"]["return_type"])
    def globals_read(s, nm):
        d = s.recuf[nm]
        if "gl" not in d:
            syms, lits = {}, set()
            seen = set()
            s.refs(nm, seen, syms, lits)
            d["gl"] = [v for v in syms if not (s.vnode(v).vaddr or syms[v][0] in ("s", "a", "u"))]
        return d["gl"]

    # ================= builtins =================================================
    def strip(s, e):
        while e.op == "cast" and e.a[0].t[0] in ("p", "a"): e = e.a[0]
        return e
    def site(s):
        s.sites += 1
        return s.sites + 1000

    def builtin(s, nm, i, st, ctx, c, fn):
        A = i.args
        def ret(v):
            if i.lhs is not None: s.assign(i.lhs, v, st, ctx)
            return st
        if nm in s.QUIETCALLS:
            if nm in ("printf", "fprintf", "puts", "fputs", "putchar", "fputc", "perror", "fflush"):
                s.assumptions.add("terminal output functions do not change program data")
            if nm == "free": s.assumptions.add("free() is not modelled (use after free / double free not checked by the deductive back end)")
            if i.lhs is not None:
                if i.lhs.t[0] == "p": return ret(s.arb(nm, i.lhs.t))
                if i.lhs.t[0] != "v": return ret(s.arb(nm, i.lhs.t))
            return st
        if nm == "fabsf": nm = "fabsf"
        if s.ismath(nm) or nm == "__builtin_fabs":
            nm = "fabs" if nm == "__builtin_fabs" else nm
            vs = [s.ev(a, st, ctx, True) for a in A]
            return ret(s.fl.math(nm, vs, A[0].t[1]))
        if nm in ("isnan", "__isnan", "__isnanf", "__builtin_isnan"): return ret(ITE(s.fl.nan(s.ev(A[0], st, ctx, True)), 1, 0))
        if nm in ("isinf", "__isinf", "__isinff", "__builtin_isinf_sign"): return ret(ITE(s.fl.isinf(s.ev(A[0], st, ctx, True)), 1, 0))
        if nm == "__finite":
            x = s.ev(A[0], st, ctx, True)
            return ret(ITE(AND(NOT(s.fl.isinf(x)), NOT(s.fl.nan(x))), 1, 0))
        if nm in ("abs", "labs"):
            v = s.ev(A[0], st, ctx, True)
            s.norm(-v, A[0].t, st, True, "abs", False)
            return ret(abs(v) if py(v) else z3.If(v >= 0, v, -v))
        if nm in ("exit", "abort", "__assert_fail"):
            if not s.opt["exit_ok"]:
                s.oblige(st, True, False, "no-abort", "the program is not terminated (%s) under the precondition" % nm, i, fn)
            else: s.assumptions.add("runs that terminate the program with an error message are outside the contract")
            return None
        if nm in ("__CPROVER_assume",):
            cnd = s.ev(A[0], st, ctx, True)
            if A[0].t[0] != "b": cnd = NOT(EQ(cnd, 0))
            if not s.dry and not s.quiet: s.assume(st, True, cnd)
            return st
        if nm == "__CPROVER_assert":
            cnd = s.ev(A[0], st, ctx, True)
            s.doassert(st, cnd, s.litarg(A[1]), i, fn)
            return st
        if nm == "vc_hint":
            cnd = s.ev(A[0], st, ctx, True)
            if A[0].t[0] != "b": cnd = NOT(EQ(cnd, 0))
            if s.collect is not None: s.collect.append(("hint", IMP(AND(*st.pc), cnd)))
            return st
        if nm == "__builtin_expect": return ret(s.ev(A[0], st, ctx, True))
        if nm in ("malloc", "calloc", "vc_arr", "vc_unknown_obj"):
            if nm == "calloc":
                a, b = s.ev(A[0], st, ctx, True), s.ev(A[1], st, ctx, True)
                n = s.mulz(a, b)
            else: n = s.ev(A[0], st, ctx, True)
            if nm != "vc_arr": s.assumptions.add("memory allocation succeeds")
            if s.loopstack and not s.quiet or s.dry:
                o = st.nx
                if py(o): o = s.fresh("newobj", z3.IntSort()); s.fact(o == st.nx)
                st.nx = o + 1
                for r in s.recs: r[0].add(("#nx", ("nx",)))
                s.epoch_fact(st, s.objsz(o) == n)
            else: o = s.newobj(n, c)
            if nm == "calloc":
                s.sid += 1
                s.zero.append((o, s.sid))
                # facts already emitted for base symbols at this object
                s.zero_backfill(o)
            return ret(P(o, 0))
        if nm in ("vc_rows", "vc_rows_of"): pass
        if nm == "memset":
            p = s.ev(A[0], st, ctx, True)
            v = s.ev(A[1], st, ctx, True); n = s.ev(A[2], st, ctx, True)
            e = s.strip(A[0])
            s.memset(st, e, p, v, n, ctx)
            return ret(p)
        if nm == "snprintf":
            # any text in the buffer, any length
            p, n = s.ev(A[0], st, ctx, True), s.ev(A[1], st, ctx, True)
            s.memset(st, s.strip(A[0]), p, None, n, ctx, any=True)
            s.assumptions.add("formatted text (snprintf) is any text")
            return ret(s.arb(nm, ("i", 32, True)))
        if nm in ("memcpy", "memmove"):
            p, q = s.ev(A[0], st, ctx, True), s.ev(A[1], st, ctx, True)
            n = s.ev(A[2], st, ctx, True)
            s.memcpy(st, s.strip(A[0]), p, s.strip(A[1]), q, n, ctx)
            return ret(p)
        if nm in ("strcmp", "strncmp", "strlen"):
            x = s.cstr(A[0], st, ctx)
            if nm == "strlen" and x is not None: return ret(len(x))
            if nm != "strlen" and x is not None:
                y = s.cstr(A[1], st, ctx)
                n = s.ev(A[2], st, ctx, True) if nm == "strncmp" else 1 << 30
                if y is not None and py(n):
                    x, y = (list(x) + [0])[:n], (list(y) + [0])[:n]
                    for u, w in zip(x, y):
                        if u != w: return ret((u & 255) - (w & 255))
                    return ret(0)
        if nm == "strcmp":
            a, b = s.strkey(A[0], st, ctx), s.strkey(A[1], st, ctx)
            I = z3.IntSort(); AS = z3.ArraySort(I, I)
            r = s.fl.UF("strcmp", AS, I, AS, I, I)(*(a + b))
            x, y = sorted((a, b), key=lambda z: (z[0].get_id(), z[1].get_id()))
            eq = s.fl.UF("streq", AS, I, AS, I, z3.BoolSort())(*(x + y))
            k = ("strcmp", r.get_id())
            if k not in s.factkeys:
                s.factkeys.add(k); s.keep += [r, eq]
                s.fact((r == 0) == eq)
                s.fact(z3.And(r >= -255, r <= 255))
                s.fact(z3.Implies(z3.And(a[0] == b[0], a[1] == b[1]), eq))
            return ret(r)
        if nm in ("vc_int", "vc_short", "vc_ushort", "vc_small", "vc_char", "vc_bool", "vc_float", "vc_double", "vc_long", "vc_uint", "vc_ulong", "rand", "omp_get_thread_num", "time"):
            t = s.rettype(i.fn.v) if i.fn.v in s.prog.sym else i.lhs.t
            v = s.arb("in_" + (s.src(i.lhs) if i.lhs is not None else nm), t)
            if nm == "rand": s.fact(v >= 0)
            return ret(v)
        if nm == "vc_range":
            lo, hi = s.ev(A[0], st, ctx, True), s.ev(A[1], st, ctx, True)
            if py(lo) and py(hi) and lo == hi: return ret(lo)
            v = s.fresh("in_" + (s.src(i.lhs) if i.lhs is not None else nm), z3.IntSort())
            bl, bh = s.bnd(lo), s.bnd(hi)
            bl, bh = bl[0] if bl[0] is not None else -2**31, bh[1] if bh[1] is not None else 2**31-1
            s.fact(z3.And(v >= bl, v <= bh)); s.symrng[v.get_id()] = (bl, bh); s.keep.append(v)
            s.rngof[v.get_id()] = (lo, hi)
            if not s.dry and not s.quiet: s.assume(st, True, AND(LE(lo, v), LE(v, hi)))
            return ret(v)
        if nm in ("vc_same_d", "vc_same_f"):
            a, b = s.ev(A[0], st, ctx, True), s.ev(A[1], st, ctx, True)
            if isinstance(a, FC) and isinstance(b, FC): r = a == b
            else: r = s.fl.term(a) == s.fl.term(b)
            return ret(ITE(r, 1, 0))
        if nm.startswith("vc_old_"):
            # value before run()
            p = s.ev(A[0], st, ctx, True)
            t = s.rettype(i.fn.v)
            sv, s.loadrec = s.loadrec, None
            try: v = s.load((s.snap or st).copy(), s.rav(A[0], ctx), "", t, p.obj, p.off)
            finally: s.loadrec = sv
            return ret(v)
        h = getattr(s, "b_" + nm, None)
        if h: return h(i, st, ctx, c, fn, ret)
        raise Unsupported("builtin " + nm)

    def litarg(s, e):
        e = s.strip(e)
        if e.op == "addr" and e.a[0].op == "idx": e = e.a[0].a[0]
        return e.v if e.op == "str" else None
    def epoch_fact(s, st, f):
        s.epochs.append(IMP(pcand(st.pc), f))
    def zero_backfill(s, o):
        for key, c in list(s.insym.items()):
            pass
    def cstr(s, e, st, ctx):
        """the characters of a string whose address and content are known, or None"""
        p = s.ev(e, st, ctx, True)
        if not (isinstance(p, P) and py(p.obj) and py(p.off)): return None
        c = s.comp(st, s.ckey(s.rav(e, ctx), "", ("i", 8, True)))
        r = []
        while len(r) < 4096:
            v = c.over.get((p.obj, p.off + len(r)))
            if v is None or not py(v): return None
            if v == 0: return r
            r.append(v)
        return None
    def strkey(s, e, st, ctx):
        p = s.ev(e, st, ctx, True)
        n = s.rav(e, ctx)
        key = s.ckey(n, "", ("i", 8, True))
        if s.loadrec is not None: s.loadrec.add(key)
        c = s.comp(st, key)
        if c.over:
            c = s.flush(key, c); st.m[key] = c
        return (z3.Select(c.base[0], s.I(p.obj)), s.I(p.off))

    def leafs(s, n, t, f=""):
        """scalar leaves of one element of type t in region n: (node, field, type, subobject?)"""
        raise Unsupported("leafs")
    def memset(s, st, e, p, v, n, ctx, any=False):
        t = e.t[1] if e.t[0] == "p" else e.t
        if e.t[0] == "a": t = e.t[1]
        t = s.inner(t)
        node = s.rav(e, ctx) if e.t[0] == "p" else s.rlv(e, ctx)[0]
        if t[0] in ("s",):
            es = s.prog.sizeof(t)
            if not (py(n) and n == es and py(v) and v == 0): raise Unsupported("memset of struct")
            s.chk_access(st, True, p.obj, p.off, es, "memset")
            s.init_agg(t, ("m", node, "", p.obj, p.off), None, st)
            return
        es = s.psize(t)
        if not any and py(n) and py(p.obj) and py(p.off) and py(v) and n % es == 0 and n // es <= 4096 and v in (0, 255):
            val = 0 if v == 0 else (-1 if t[0] == "i" and t[2] else (1 << 8 * es) - 1)
            if t[0] == "f" : val = FC(t[1], 0) if v == 0 else None
            if t[0] == "p": val = NULLP
            if val is None: raise Unsupported("memset float")
            for j in range(n // es): s.store(st, node, "", t, p.obj, p.off + j, val)
            return
        # symbolic length: fresh content, known to be v inside, unchanged outside (instantiated lazily at loads)
        if t[0] in ("p", "v"): raise Unsupported("memset of pointers")
        key = s.ckey(node, "", t)
        c = s.flush(key, s.comp(st, key))
        for r in s.recs: r[1].setdefault(key, []).append((p.obj, None))
        if not s.dry and not s.quiet and s.opt["safety"]:
            s.oblige(st, True, AND(LE(0, p.off), LE(p.off * es + n, s.size(p.obj))), "memory", "memset within allocated object", s.cur, s.curfn)
        val = None
        if any: pass
        elif py(v) and v == 0: val = FC(t[1], 0) if t[0] == "f" else 0
        elif es == 1: val = v
        o = s.I(p.obj)
        nc = s.newcomp(key)
        sid = nc.syms[0][0]
        old = c
        def rule(vv, obj, off, p=p, n=n, es=es, val=val, old=old, key=key, t=t):
            inside = AND(LE(p.off, off), LT((off - p.off) * es, n)) if es != 1 else AND(LE(p.off, off), LT(off, p.off + n))
            if val is not None:
                s.fact(IMP(AND(EQ(obj, p.obj), inside), vv == (s.fl.term(val) if t[0] == "f" else val)))
            for sym in old.syms: s.base_facts(key, s.nodeof(key), sym, obj, off)
            s.fact(IMP(NOT(inside), vv == s.sel(old.base, key[2], obj, off)))
        s.symrules.setdefault(sid, []).append(rule)
        st.m[key] = Comp(tuple(z3.Store(b, o, z3.Select(nb, o)) for b, nb in zip(c.base, nc.base)), {}, c.syms + nc.syms)
    def memcpy(s, st, e, p, f, q, n, ctx):
        t = s.inner(e.t[1] if e.t[0] in ("p", "a") else e.t)
        ft = s.inner(f.t[1] if f.t[0] in ("p", "a") else f.t)
        na = s.rav(e, ctx) if e.t[0] == "p" else s.rlv(e, ctx)[0]
        nb = s.rav(f, ctx) if f.t[0] == "p" else s.rlv(f, ctx)[0]
        if t[0] == "v": t = ft
        if ft[0] == "v": ft = t
        if t[0] == "v": raise Unsupported("memcpy of untyped memory")
        es = s.prog.sizeof(t)
        s.chk_range(st, p, es, n, "memcpy destination"); s.chk_range(st, q, es, n, "memcpy source")
        if t[0] == "s":
            if not (py(n) and n % es == 0 and n // es <= 16): raise Unsupported("memcpy of structs")
            for j in range(n // es): s.copy_agg(t, ("m", na, "", p.obj, p.off + j), ("m", nb, "", q.obj, q.off + j), st)
            return
        if py(n) and py(p.off) and py(q.off) and n // es <= 64:
            vals = [s.load(st, nb, "", t, q.obj, q.off + j) for j in range(n // es)]
            for j, v in enumerate(vals): s.store(st, na, "", t, p.obj, p.off + j, v)
            return
        ka, kb = s.ckey(na, "", t), s.ckey(nb, "", t)
        ca, cb = s.flush(ka, s.comp(st, ka)), s.flush(kb, s.comp(st, kb))
        for r in s.recs: r[1].setdefault(ka, []).append((p.obj, None))
        o = s.I(p.obj)
        nc = s.newcomp(ka)
        sid = nc.syms[0][0]
        tk = ka[2]
        def eqv(a, b): return z3.And(a.obj == b.obj, a.off == b.off) if tk[0] == "p" else a == b
        def rule(vv, obj, off, p=p, q=q, n=n, es=es, ca=ca, cb=cb):
            inside = AND(LE(p.off, off), LT((off - p.off) * es, n)) if es != 1 else AND(LE(p.off, off), LT(off, p.off + n))
            so = off - p.off + q.off
            for sym in cb.syms: s.base_facts(kb, s.nodeof(kb), sym, q.obj, so)
            for sym in ca.syms: s.base_facts(ka, s.nodeof(ka), sym, obj, off)
            s.fact(IMP(AND(EQ(obj, p.obj), inside), eqv(vv, s.sel(cb.base, tk, q.obj, so))))
            s.fact(IMP(NOT(inside), eqv(vv, s.sel(ca.base, tk, obj, off))))
        s.symrules.setdefault(sid, []).append(rule)
        st.m[ka] = Comp(tuple(z3.Store(b, o, z3.Select(x, o)) for b, x in zip(ca.base, nc.base)), {}, ca.syms + nc.syms)
    def chk_range(s, st, p, es, n, what):
        if s.quiet or s.dry or not s.opt["safety"]: return
        s.oblige(st, True, OR(EQ(n, 0), AND(NOT(EQ(p.obj, 0)), LE(0, p.off), LE(p.off * es + n, s.size(p.obj)))), "memory", what + " within allocated object", s.cur, s.curfn)

    # harness builders ------------------------------------------------------------
    def elem(s, i, st, ctx):
        """(region node, field, lvalue expr, lvalue) named by a builder's address argument"""
        e = s.strip(i.args[1])
        if e.op != "addr": raise Unsupported("builder needs an address expression")
        x = e.a[0]
        s.quiet += 1
        l = s.lval(x, st, ctx, True)
        s.quiet -= 1
        return x, l
    def elemcond(s, x, l, par, n, obj, off):
        """is location (obj,off) the location of element k (0<=k<n) of the named array?  -> (cond, k)"""
        cond = True
        cx, cl = x, l
        while True:
            # scalar members share (obj,off) with their struct; nested structs/arrays are subobjects
            if cx.op == "mem":
                inner = cx.a[0]
                if s.is_sub(cx):
                    if py(obj):
                        kk = [z for z in s.subf if z[0] == "sub" and s.subf[z] == obj and z[3] == cx.v]
                        if not kk: return False, 0
                        cond = AND(cond, EQ(off, 0) if cx.t[0] not in ("a",) else True)
                        obj, off = kk[0][1], kk[0][2]
                    else:
                        cond = AND(cond, s.TAGF(s.I(obj)) == s.tagid(cx.v), EQ(off, 0) if cx.t[0] not in ("a",) else True)
                        obj, off = s.INVO(s.I(obj)), s.INVF(s.I(obj))
                    kk = [z for z in s.subf if z[0] == "sub" and py(cl[3]) and s.subf[z] == cl[3]]
                    if kk: cl = ("m", None, "", kk[0][1], kk[0][2])
                    else: cl = ("m", None, "", s.INVO(s.I(cl[3])), s.INVF(s.I(cl[3])))
                cx = inner
                continue
            break
        k = off - cl[4] if not (py(cl[4]) and cl[4] == 0) else off
        cond = AND(cond, EQ(obj, cl[3]) if par == 0 else s.TAGF(s.I(obj)) == par, LE(0, k), LT(k, n))
        return cond, k
    def is_sub(s, x):
        return x.t[0] in ("s", "a", "u") or x.v in s.find(s.memn[x.uid]).addr
    def memnode(s, x): return s.memn[x.uid]
    def note_mem(s, x, ctx):
        y = x
        while y.op in ("mem",):
            s.memn[y.uid] = s.rlv(y.a[0], ctx)[0]
            y = y.a[0]
    def b_vc_rows(s, i, st, ctx, c, fn, ret):
        """vc_rows(parent_site, &tab[0].field, n, bytes): for all k<n: tab[k].field is a distinct object of `bytes` bytes"""
        A = i.args
        par = s.ev(A[0], st, ctx, True)
        s.quiet += 1
        n, by = s.ev(A[2], st, ctx, True), s.ev(A[3], st, ctx, True)
        s.quiet -= 1
        site = s.site()
        if s.dry: return ret(site)
        x, l = s.elem(i, st, ctx)
        s.note_mem(x, ctx)
        def rule(v, obj, off):
            cond, k = s.elemcond(x, l, par, n, obj, off)
            if cond is False: return
            s.fact(IMP(cond, z3.And(v.obj < 0, v.off == 0, s.objsz(v.obj) == by, s.TAGF(v.obj) == site, s.INVO(v.obj) == s.I(obj), s.INVF(v.obj) == s.I(off))))
        s.find(l[1]).rules.setdefault(l[2], []).append(rule)
        return ret(site)
    b_vc_rows_of = b_vc_rows
    def b_vc_each(s, i, st, ctx, c, fn, ret):
        """vc_each(parent_site, &tab[0].field, n, lo, hi): every field value lies in [lo,hi]"""
        A = i.args
        par = s.ev(A[0], st, ctx, True)
        n, lo, hi = [s.ev(a, st, ctx, True) for a in A[2:5]]
        if s.dry: return st
        x, l = s.elem(i, st, ctx)
        s.note_mem(x, ctx)
        def rule(v, obj, off):
            cond, k = s.elemcond(x, l, par, n, obj, off)
            if cond is False: return
            s.fact(IMP(cond, z3.And(v >= lo, v <= hi)))
        s.find(l[1]).rules.setdefault(l[2], []).append(rule)
        return st
    def b_vc_sorted(s, i, st, ctx, c, fn, ret):
        """vc_sorted(parent_site, &tab[0].field, n, lo, hi, strict): ascending values in [lo,hi]"""
        A = i.args
        par = s.ev(A[0], st, ctx, True)
        n, lo, hi, strict = [s.ev(a, st, ctx, True) for a in A[2:6]]
        if s.dry: return st
        x, l = s.elem(i, st, ctx)
        s.note_mem(x, ctx)
        reads = []
        def rule(v, obj, off):
            cond, k = s.elemcond(x, l, par, n, obj, off)
            if cond is False or any(r[2] is v or (isz(v) and isz(r[2]) and r[2].eq(v)) for r in reads): return
            s.fact(IMP(cond, z3.And(v >= lo, v <= hi)))
            for c2, k2, v2 in reads:
                f1, f2 = (v < v2, v > v2) if strict else (v <= v2, v >= v2)
                s.fact(IMP(AND(cond, c2), AND(IMP(LT(k, k2), f1), IMP(LT(k2, k), f2))))
            reads.append((cond, k, v))
        s.find(l[1]).rules.setdefault(l[2], []).append(rule)
        return st
    def b_vc_index(s, i, st, ctx, c, fn, ret):
        """vc_index(parent_site, &tab[0].field, n): the field's value is the element's index"""
        A = i.args
        par = s.ev(A[0], st, ctx, True)
        n = s.ev(A[2], st, ctx, True)
        if s.dry: return st
        x, l = s.elem(i, st, ctx)
        s.note_mem(x, ctx)
        def rule(v, obj, off):
            cond, k = s.elemcond(x, l, par, n, obj, off)
            if cond is False: return
            s.fact(IMP(cond, EQ(v, k) if par == 0 else EQ(v, s.INVF(s.I(obj)))))
        s.find(l[1]).rules.setdefault(l[2], []).append(rule)
        return st
    BUILT = BUILT | {"vc_old_short", "vc_old_int", "vc_old_small", "vc_old_ushort", "vc_old_float", "vc_old_double", "vc_rows_of", "vc_each", "vc_range", "vc_index", "vc_sorted"}

    # ================= loops ====================================================
    def head_guard(s, ins, ctx, fn, head, end, st):
        """as head_guard1; ranges of symbols may decide that a loop is not entered, but not that it is (no unrolling on their account)"""
        s.nofold += 1
        try: r = s.head_guard1(ins, ctx, fn, head, end, st)
        finally: s.nofold -= 1
        if r is None and s.head_guard1(ins, ctx, fn, head, end, st) is False: return False
        return r

    def head_guard1(s, ins, ctx, fn, head, end, st):
        """value of the loop condition at the head if it can be read off: True=stay, False=leave, None=symbolic"""
        i = ins[end]
        if i.guard is not None and not (i.guard.op == "const"):
            # do-while: one dry iteration
            ex = {}
            s.dry += 1; s.recs.append((set(), {}))
            try: s.block(ins, ctx, fn, head, end, {head: [st.copy()]}, ex, head)
            finally: s.dry -= 1; s.recs.pop()
            b = ex.get(head, [])
            o = [x for t, l in ex.items() if t == end + 1 for x in l]
            if b and not o: return True
            if o and not b: return False
            return None
        tmp = st.copy()
        s.dry += 1; s.recs.append((set(), {}))
        try:
            k = head
            for _ in range(8):
                q = ins[k]
                if q.kind == "GOTO":
                    if q.targets[0] > end:
                        c = s.ev(q.guard, tmp, ctx, True) if q.guard is not None else True
                        return (not c) if isinstance(c, bool) else None
                    return None
                if q.kind == "FUNCTION_CALL" and not (q.fn.op == "sym" and (q.fn.v in s.BUILT or s.ismath(q.fn.v))): return None
                r = s.step(q, k, tmp, ctx, fn)
                if not r: return None
                k += 1
        finally:
            s.dry -= 1; s.recs.pop()
        return None

    def loop(s, ins, ctx, fn, head, end, st, ex):
        n = 0
        while True:
            hg = s.head_guard(ins, ctx, fn, head, end, st)
            if hg is None or n >= s.opt["maxunroll"]: break
            x = {}
            s.block(ins, ctx, fn, head, end, {head: [st]}, x, head)
            back = x.pop(head, [])
            for t, l in x.items(): ex.setdefault(t, []).extend(l)
            if not back: return
            st = back[0]
            for b in back[1:]: st = s.merge(st, b)
            n += 1
        s.cutloop(ins, ctx, fn, head, end, st, ex)

    def maxsym(s, x):
        """largest fresh-symbol number occurring in a term"""
        if not isz(x): return 0
        seen = s.mscache
        stack = [x]
        while stack:
            e = stack[-1]
            i = e.get_id()
            if i in seen: stack.pop(); continue
            ch = e.children()
            todo = [c for c in ch if c.get_id() not in seen]
            if todo: stack.extend(todo); continue
            m = 0
            if not ch:
                nm = e.decl().name() if z3.is_app(e) else ""
                q = nm.rfind("!")
                if q >= 0:
                    d = re.match(r"\d+", nm[q + 1:])
                    if d: m = int(d.group())
            else: m = max(seen[c.get_id()][0] for c in ch)
            seen[i] = (m, e)
            stack.pop()
        return seen[x.get_id()][0]

    def havoc(s, st, W, why):
        h = st.copy()
        for (key, t) in sorted(W[0], key=str):
            if key == "#nx":
                h.nx = s.fresh("nx", z3.IntSort())
                s.fact(h.nx >= s.I(st.nx))
            elif key in h.v: h.v[key] = s.arb(key.split("::")[-1].split(":")[-1], t)
        for key in sorted(W[1], key=str):
            cl = W[1][key]
            if cl == "full":
                h.m[key] = s.newcomp(key)
            elif cl[0] == "cells":
                for (o, f) in cl[1]:
                    t = key[2]
                    node = s.nodeof(key)
                    tt = t if t[0] != "p" else ("p", ("v",))
                    sv, s.recs = s.recs, []
                    s.store(h, node, key[1], tt, o, f, s.arb("cell." + key[1], tt))
                    s.recs = sv
            else:
                for o in cl[1]: s.havoc_obj(h, key, o)
        return h

    def classify(s, cells, mark):
        objs, offs_ok = [], True
        cs = []
        for (o, f) in cells:
            if s.maxsym(o) > mark: return "full"
            if not any(same(o, q) for q in objs): objs.append(o)
            if f is None or s.maxsym(f) > mark: offs_ok = False
            elif not any(same(o, a) and same(f, b) for a, b in cs): cs.append((o, f))
        if offs_ok and len(cs) <= 8: return ("cells", cs)
        if len(objs) <= 6: return ("objs", objs)
        return "full"
    def joinclass(s, a, b):
        if a is None: return b
        if a == "full" or b == "full": return "full"
        if a[0] == "cells" and b[0] == "cells":
            r = list(a[1]) + [x for x in b[1] if not any(same(x[0], y[0]) and same(x[1], y[1]) for y in a[1])]
            return ("cells", r)
        oa = [x[0] for x in a[1]] if a[0] == "cells" else a[1]
        ob = [x[0] for x in b[1]] if b[0] == "cells" else b[1]
        r = []
        for x in oa + ob:
            if not any(same(x, y) for y in r): r.append(x)
        return ("objs", r)

    def cutloop(s, ins, ctx, fn, head, end, st, ex):
        ck = (ctx, fn, head)
        W = (set(), {})
        for it in range(12):
            mark = s.sid
            h = s.havoc(st, W, "dry")
            rec = (set(), {})
            s.recs.append(rec); s.dry += 1
            x = {}
            s.loopstack.append((ctx, fn, head, end, W))
            try: s.block(ins, ctx, fn, head, end, {head: [h]}, x, head)
            finally:
                s.recs.pop(); s.dry -= 1; s.loopstack.pop()
            W2 = (set(W[0]), dict(W[1]))
            for v in rec[0]:
                if v[0] == "#nx" or v[0] in st.v: W2[0].add(v)
            for key, cells in rec[1].items():
                W2[1][key] = s.joinclass(W2[1].get(key), s.classify(cells, mark))
            if W2[0] == W[0] and str(sorted(W2[1].items(), key=str)) == str(sorted(W[1].items(), key=str)): break
            W = W2
        else: raise Unsupported("loop frame did not converge in " + fn)
        for r in s.recs:
            pass   # writes were already recorded in all enclosing recorders by the dry run
        if s.dry:
            x.pop(head, None)
            for t, l in x.items(): ex.setdefault(t, []).extend(l)
            return
        if s.quiet: raise Unsupported("symbolic loop in specification code (%s)" % fn)
        inst = s.loopinst[ck] = s.loopinst.get(ck, 0) + 1
        s.loops_cut.append((fn, ins[head].line, ctx))
        cands = s.make_cands(ins, ctx, fn, head, end, st, W, inst)
        for c in cands:
            s.oblige_cand(st, c, "entry", ins[head], fn)
        mark = s.sid
        h = s.havoc(st, W, "head")
        for c in cands:
            if c.q is not None: s.assume_q(c, h, mark)
        for c in cands:
            if c.q is not None: continue
            cond = c.fn(h)
            if cond is True: continue
            s.ecand[len(s.epochs)] = c
            s.epochs.append(IMP(AND(pcand(h.pc), c.act), cond))
        x = {}
        s.loopstack.append((ctx, fn, head, end, W))
        s.block(ins, ctx, fn, head, end, {head: [h]}, x, head)
        s.loopstack.pop()
        for b in x.pop(head, []):
            for c in cands: s.oblige_cand(b, c, "preserved", ins[head], fn)
        for t, l in x.items(): ex.setdefault(t, []).extend(l)

    def assume_all(s, st):
        """preconditions all_*(): hold for every value of their quantified variable"""
        from . import infer
        if not hasattr(s, "post"): s.post = infer.Post(s)
        for f in sorted(f for f in s.prog.fjson if f.startswith("all_") and s.prog.has(f)):
            syms, lits, sn = {}, set(), set()
            s.refs(f, sn, syms, lits)
            qn = [v for v in syms if v.startswith("Q_")]
            if len(qn) != 1: raise Unsupported("quantified precondition " + f)
            c = Cand()
            c.act = True
            c.q = lambda stt, v, f=f, qn=qn: AND(*[x for _, x in s.post.call(f, "/" + f, stt, {qn[0]: v})])
            s.assume_q(c, st, -1)

    def assume_q(s, c, h, mark):
        """quantified loop invariant: instantiated at every location read from the memory the loop modifies"""
        q = s.arb("q", ("i", 32, True))
        sv = s.loadtrace, s.loadrec
        s.loadtrace = []
        c.q(h, q)
        tr = s.loadtrace
        s.loadtrace, s.loadrec = sv
        m = s.fresh("quant", z3.BoolSort())
        s.epochs.append(m)
        h0 = h.copy()
        done = set()
        def inst(t):
            t = s.I(t)
            if t.get_id() in done: return
            done.add(t.get_id()); s.keep.append(t)
            b = s.bnd(t)
            if None in b or b[0] < -2**31 or b[1] >= 2**31:
                u = s.arb("q", ("i", 32, True))
                done.add(u.get_id()); s.keep.append(u)
                s.fact(IMP(z3.And(t >= -2**31, t < 2**31), u == t))
                t = u
            cond = c.q(h0.copy(), t)
            if cond is True: return
            s.fact(IMP(AND(m, c.act, pcand(h0.pc), z3.And(t >= -2**31, t < 2**31)), cond))
        seen = set()
        for key, o, f in tr:
            pat = None
            if isz(f) and f.eq(q): pat = 1
            elif isz(o) and mentions(o, q): pat = 0
            if pat is None or (key, pat) in seen: continue
            seen.add((key, pat)); s.keep.append(o)
            for sid, base in s.comp(h, key).syms if mark < 0 or key in h.m else ():
                if sid <= mark: continue
                def rule(v, obj, off, pat=pat, o=o):
                    if pat == 1: inst(off)
                    else:
                        r = unify(o, s.I(obj), q)
                        if r is not None: inst(r)
                if sid == 0: s.find(s.nodeof(key)).rules.setdefault(key[1], []).append(rule)
                else: s.symrules.setdefault(sid, []).append(rule)

    def oblige_cand(s, st, c, what, i, fn):
        cond = c.fn(st)
        if cond is True: return
        f = IMP(pcand(st.pc), cond)
        if f is True: return
        o = Obl()
        o.name, o.kind, o.cond, o.epoch, o.func = "loop invariant %s: %s" % (what, c.desc), "invariant", f, len(s.epochs), fn
        o.line, o.file = i.line, i.file
        o.cand, o.status, o.time, o.model = c, None, 0.0, None
        s.obls.append(o)

    def make_cands(s, ins, ctx, fn, head, end, st, W, inst):
        from . import infer
        r = []
        for desc, f in infer.candidates(s, ins, ctx, fn, head, end, st, W):
            c = Cand()
            c.q = None
            c.desc, c.on, c.loop = desc, True, (fn, ins[head].line)
            c.act = z3.Bool("act!%d" % (len(s.cands) + 1))
            cache = {}
            def g(stt, f=f):
                s.quiet += 1
                sv = s.recs; s.recs = []
                try: return f(stt)
                finally:
                    s.quiet -= 1; s.recs = sv
            c.fn = g
            if hasattr(f, "q"):
                def gq(stt, v, f=f):
                    s.quiet += 1
                    sv = s.recs; s.recs = []
                    try: return f.q(stt, v)
                    finally:
                        s.quiet -= 1; s.recs = sv
                c.q = gq
            s.cands.append(c); r.append(c)
        return r
