"""Floating point as uninterpreted sorts with ground axioms.

A float is an element of an uninterpreted sort; val() gives its real value, nan() tells
NaN. Every operation is an uninterpreted function; the axioms added per term are true of
IEEE-754 arithmetic (round to nearest), so a proof is valid for the machine arithmetic."""
import struct
import z3
from fractions import Fraction
from .prog import fval, Unsupported
try:
    import numpy as np
except ImportError:
    np = None

SORT = {w: z3.DeclareSort("F%d" % w) for w in (32, 64, 128)}
VAL = {w: z3.Function("val%d" % w, SORT[w], z3.RealSort()) for w in SORT}
NAN = {w: z3.Function("nan%d" % w, SORT[w], z3.BoolSort()) for w in SORT}
MANT = {32: 24, 64: 53, 128: 113}
INFV = {32: 2 ** 1030, 64: 2 ** 1030, 128: 2 ** 17000}

def is_py(x): return isinstance(x, int)

class FC:
    """concrete float (bit pattern)"""
    __slots__ = ("w", "bits")
    def __init__(s, w, bits): s.w, s.bits = w, bits
    def __eq__(s, o): return isinstance(o, FC) and s.w == o.w and s.bits == o.bits
    def __hash__(s): return hash((s.w, s.bits))
    def __repr__(s): return "FC(%d,%x)" % (s.w, s.bits)

def to_py(c):
    if c.w == 64: return struct.unpack("<d", struct.pack("<Q", c.bits))[0]
    if c.w == 32: return struct.unpack("<f", struct.pack("<I", c.bits))[0]
    raise Unsupported("long double constant")
def from_py(w, v):
    if w == 64: return FC(64, struct.unpack("<Q", struct.pack("<d", v))[0])
    if w == 32:
        try: return FC(32, struct.unpack("<I", struct.pack("<f", v))[0])
        except OverflowError: return FC(32, 0x7f800000 if v > 0 else 0xff800000)
    raise Unsupported("long double")

class Flt:
    def __init__(s, fact, fresh_int):
        s.addfact = fact           # callable: adds an axiom about the term given second (None: always needed)
        s.trig = None
        s.fresh_int = fresh_int
        s.consts = {}
        s.uf = {}
        s.done = set()
        s.ival = {}                # term id -> (term, Int expr)
        s.quot = {}                # term id -> (term, n, k)
        s.keep = []

    def fact(s, f): s.addfact(f, s.trig)
    def UF(s, name, *sorts):
        k = (name,) + tuple(str(x) for x in sorts)
        if k not in s.uf: s.uf[k] = z3.Function("f!" + name, *sorts)
        return s.uf[k]

    def term(s, x):
        if not isinstance(x, FC): return x
        k = (x.w, x.bits)
        if k not in s.consts:
            c = z3.Const("fc%d_%x" % k, SORT[x.w])
            v = fval(x.bits, x.w)
            trig, s.trig = s.trig, c
            if v == "nan": s.fact(NAN[x.w](c))
            else:
                s.fact(z3.Not(NAN[x.w](c)))
                if v == "inf": r = z3.RealVal(INFV[x.w])
                elif v == "-inf": r = z3.RealVal(-INFV[x.w])
                else:
                    r = z3.Q(v.numerator, v.denominator) if v.denominator != 1 else z3.RealVal(v.numerator)
                    if v.denominator == 1 and abs(v) <= 2 ** MANT[x.w]:
                        s.ival[c.get_id()] = (c, int(v))
                        if v != 0 or x.bits == 0: s.fact(c == s.UF("i2f%d" % x.w, z3.IntSort(), SORT[x.w])(z3.IntVal(int(v))))
                s.fact(VAL[x.w](c) == r)
            # distinct bit patterns are distinct values of the sort (only +-0 share val)
            s.consts[k] = c
            s.trig = trig
        return s.consts[k]

    def w(s, t):
        if isinstance(t, FC): return t.w
        return {"F32": 32, "F64": 64, "F128": 128}[t.sort().name()]
    def val(s, x):
        t = s.term(x); return VAL[s.w(t)](t)
    def nan(s, x):
        if isinstance(x, FC): return fval(x.bits, x.w) == "nan"
        t = s.term(x); return NAN[s.w(t)](t)
    def iv(s, x):
        t = s.term(x); r = s.ival.get(t.get_id()); return None if r is None else r[1]

    def _new(s, t):
        if t.get_id() in s.done: return False
        s.done.add(t.get_id()); s.keep.append(t); s.trig = t; return True

    def _setint(s, r, w, n):
        """axiom: r is exactly the integer n whenever n is representable"""
        s.ival[r.get_id()] = (r, n)
        if is_py(n):
            if abs(n) <= 2 ** MANT[w]: s.fact(z3.And(z3.Not(NAN[w](r)), VAL[w](r) == n))
            return
        lim = 2 ** MANT[w]
        s.fact(z3.Implies(z3.And(n <= lim, n >= -lim), z3.And(z3.Not(NAN[w](r)), VAL[w](r) == z3.ToReal(n))))

    def i2f(s, n, w):
        if is_py(n):
            if w == 64: return from_py(64, float(n))
            if w == 32:
                if np is not None: return FC(32, int(np.array(n, dtype=np.int64).astype(np.float32).view(np.uint32)))
                if abs(n) <= 2 ** 24: return from_py(32, float(n))
        r = s.UF("i2f%d" % w, z3.IntSort(), SORT[w])(n)
        if s._new(r):
            s._setint(r, w, n)
            s.fact(z3.Not(NAN[w](r)))
            if not is_py(n): s.fact(z3.Implies(z3.And(n <= 2 ** MANT[w], n >= -2 ** MANT[w]), s.UF("f2n%d" % w, SORT[w], z3.IntSort())(r) == n))
            e = z3.Q(1, 2 ** (MANT[w] - 1))
            s.fact(z3.And(z3.Implies(n >= 0, VAL[w](r) >= 0), z3.Implies(n <= 0, VAL[w](r) <= 0), z3.Implies(n > 0, VAL[w](r) > 0), z3.Implies(n < 0, VAL[w](r) < 0)))
        return r

    def f2f(s, x, w):
        if isinstance(x, FC):
            if x.w == w: return x
            if {x.w, w} == {32, 64}:
                return from_py(w, to_py(x)) if w == 64 else FC(32, int(np.float32(to_py(x)).view(np.uint32)))
        a = s.w(x); t = s.term(x)
        if a == w: return x
        r = s.UF("f2f_%d_%d" % (a, w), SORT[a], SORT[w])(t)
        if s._new(r):
            s.fact(NAN[w](r) == NAN[a](t))
            if w > a:
                s.fact(VAL[w](r) == VAL[a](t))
                i = s.iv(t)
                if i is not None: s.ival[r.get_id()] = (r, i)
                q = s.quot.get(t.get_id())
                if q: s.quot[r.get_id()] = (r,) + q[1:]
            else:
                i = s.iv(t)
                if i is not None: s._setint(r, w, i)
                s.fact(z3.And(z3.Implies(VAL[a](t) >= 0, VAL[w](r) >= 0), z3.Implies(VAL[a](t) <= 0, VAL[w](r) <= 0)))
                # a value that the narrow type represents is kept (offered for the narrow operands t was computed from)
                st, seen = [(t, 0)], {}
                while st and len(seen) < 6:
                    u, d = st.pop()
                    if u.sort() == SORT[w] and u.decl().kind() == z3.Z3_OP_UNINTERPRETED: seen[u.get_id()] = u
                    if d < 5: st += [(c, d + 1) for c in u.children() if c.sort() in (SORT[w], SORT[a])]
                for u in seen.values(): s.fact(z3.Implies(z3.And(z3.Not(NAN[a](t)), VAL[a](t) == VAL[w](u)), VAL[w](r) == VAL[w](u)))
                # round trip of a widened value
                if t.decl().name() == "f!f2f_%d_%d" % (w, a): s.fact(r == t.arg(0))
        return r

    def f2i(s, x, lo, hi, tag):
        """conversion to an integer type with range [lo,hi] (truncation); result unspecified if out of range"""
        if isinstance(x, FC):
            v = fval(x.bits, x.w)
            if not isinstance(v, str):
                n = int(v)
                if lo <= n <= hi: return n
        w = s.w(x); t = s.term(x)
        if t.decl().name() == "f!i2f%d" % w and s.bnd:
            # a whole number that fits both types comes back
            a, b = s.bnd(t.arg(0))
            if a is not None and b is not None and a >= max(lo, -2 ** MANT[w]) and b <= min(hi, 2 ** MANT[w]): return t.arg(0)
        r = s.UF("f2i%d_%s" % (w, tag), SORT[w], z3.IntSort())(t)
        if s._new(r):
            s.fact(z3.And(r >= lo, r <= hi))
            V = VAL[w](t); nn = z3.Not(NAN[w](t)); R = z3.ToReal(r)
            q = s.quot.get(t.get_id())
            i = s.iv(t)
            if i is not None:
                lim = 2 ** MANT[w]
                s.fact(z3.Implies(z3.And(i >= max(lo, -lim), i <= min(hi, lim)), r == i))
            else:
                s.fact(z3.Implies(z3.And(nn, V > lo - 1, V < hi + 1),
                                  z3.If(V >= 0, z3.And(R <= V, V < R + 1), z3.And(R - 1 < V, V <= R))))
        return r

    def neg(s, x):
        if isinstance(x, FC): return FC(x.w, x.bits ^ (1 << (x.w - 1)))
        w = s.w(x)
        r = s.UF("neg%d" % w, SORT[w], SORT[w])(x)
        if s._new(r):
            s.fact(z3.And(NAN[w](r) == NAN[w](x), VAL[w](r) == -VAL[w](x)))
            i = s.iv(x)
            if i is not None: s.ival[r.get_id()] = (r, -i)
        return r

    def pow2(s, x):
        """the value of a constant that is a power of two of moderate size"""
        if not isinstance(x, FC) or x.w not in (32, 64): return None
        import math
        v = to_py(x)
        if not v > 0 or v == float("inf"): return None
        m, e = math.frexp(v)
        return None if m != 0.5 or abs(e) > 50 or e == 1 else z3.Q(2 ** max(e - 1, 0), 2 ** max(1 - e, 0))

    def bin(s, op, a, b, w):
        if isinstance(a, FC) and isinstance(b, FC) and w in (32, 64) and np is not None:
            D = np.float64 if w == 64 else np.float32
            with np.errstate(all="ignore"):
                x, y = D(to_py(a)), D(to_py(b))
                r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
            return FC(w, int(np.array(r, dtype=D).view(np.uint64 if w == 64 else np.uint32)))
        ia, ib = s.iv(a), s.iv(b)
        ca, cb = s.pow2(a), s.pow2(b)
        a, b = s.term(a), s.term(b)
        if op == "*" and a.eq(b) and a.decl().name() == "f!fabs%d" % w: a = b = a.arg(0)      # |x|*|x| is x*x
        F = s.UF({"+": "add", "-": "sub", "*": "mul", "/": "div"}[op] + str(w), SORT[w], SORT[w], SORT[w])
        if op in "+*" and F(b, a).get_id() in s.done: return F(b, a)
        r = F(a, b)
        if not s._new(r): return r
        if op in "+*": s.fact(r == F(b, a))      # as a fact, so that equal operands give equal results in either order
        V, N = VAL[w], NAN[w]
        lim = 2 ** MANT[w]
        if op in "+-":
            if ia is not None and ib is not None:
                n = ia + ib if op == "+" else ia - ib
                cond = [z3.And(i <= lim, i >= -lim) for i in (ia, ib) if not is_py(i)]
                s.ival[r.get_id()] = (r, n)
                s.fact(z3.Implies(z3.And(*(cond + [n <= lim, n >= -lim])), z3.And(z3.Not(N(r)), V(r) == z3.ToReal(n) if not is_py(n) else V(r) == n)))
            elif ia is not None or ib is not None:
                # one operand a small integer, the other any integer-valued float
                x = b if ia is not None else a
                xi = s.UF("f2n%d" % w, SORT[w], z3.IntSort())(x)
                e = V(a) + V(b) if op == "+" else V(a) - V(b)
                o = a if ia is not None else b
                s.fact(z3.Implies(z3.And(z3.Not(N(x)), z3.ToReal(xi) == V(x), V(x) <= lim, V(x) >= -lim, V(o) <= lim, V(o) >= -lim, e <= lim, e >= -lim),
                                  z3.And(z3.Not(N(r)), V(r) == e)))
            for x, ix, y, c in ((a, ia, b, ib), (b, ib, a, ia)):
                # stepping a whole number by another one gives a whole number
                if c is not None and not is_py(ix) and (not is_py(c) or abs(c) < 2 ** 20):
                    I2F = s.UF("i2f%d" % w, z3.IntSort(), SORT[w])
                    j = s.UF("f2n%d" % w, SORT[w], z3.IntSort())(x) if ix is None else ix
                    m = (j + c if op == "+" else j - c if x is a else c - j)
                    h = [x == I2F(j), j <= lim // 2, j >= -(lim // 2)]
                    if not is_py(c): h += [y == I2F(c), c <= lim // 2, c >= -(lim // 2)]
                    s.fact(z3.Implies(z3.And(*h), z3.And(r == I2F(m), z3.Not(N(r)), V(r) == z3.ToReal(m))))
                    if ix is not None: break
            if op == "+" and ia is None and ib is None:
                # doubling is exact
                s.fact(z3.Implies(z3.And(a == b, z3.Not(N(a)), V(a) <= 2 ** 100, V(a) >= -2 ** 100), z3.And(z3.Not(N(r)), V(r) == 2 * V(a))))
            if op == "-":
                # Sterbenz-free sign facts: x-y has the sign of the comparison (gradual underflow)
                s.fact(z3.Implies(z3.And(z3.Not(N(r)), z3.Not(N(a)), z3.Not(N(b))),
                                  z3.And(z3.Implies(V(a) > V(b), V(r) > 0), z3.Implies(V(a) < V(b), V(r) < 0), z3.Implies(V(a) == V(b), V(r) == 0))))
            s.fact(z3.Implies(z3.Or(N(a), N(b)), N(r)))
        elif op == "*":
            if ia is not None and ib is not None and (is_py(ia) or is_py(ib)):
                n = ia * ib
                cond = [z3.And(i <= lim, i >= -lim) for i in (ia, ib) if not is_py(i)]
                s.ival[r.get_id()] = (r, n)
                if not is_py(n):
                    s.fact(z3.Implies(z3.And(*(cond + [n <= lim, n >= -lim])), z3.And(z3.Not(N(r)), V(r) == z3.ToReal(n))))
            s.fact(z3.Implies(z3.Or(N(a), N(b)), N(r)))
            s.fact(z3.Implies(z3.And(z3.Not(N(r)), V(a) >= 0, V(b) >= 0), V(r) >= 0))
            for k, y in ((ca, b), (cb, a)):
                # multiplying by a power of two is exact away from under- and overflow
                if k is not None:
                    s.fact(z3.Implies(z3.And(z3.Not(N(y)), V(y) <= 2 ** 40, V(y) >= -2 ** 40, z3.Or(V(y) == 0, V(y) >= z3.Q(1, 2 ** 40), V(y) <= z3.Q(-1, 2 ** 40))), z3.And(z3.Not(N(r)), V(r) == V(y) * k)))
            for x, y in ((a, b), (b, a)):
                if s.iv(x) == 1: s.fact(z3.And(N(r) == N(y), V(r) == V(y)))
        else:
            s.fact(z3.Implies(z3.Or(N(a), N(b)), N(r)))
            if ib is not None and is_py(ib) and ib > 0:
                s.fact(z3.Implies(z3.Not(N(a)), z3.And(z3.Not(N(r)),
                       z3.Implies(V(a) >= 0, z3.And(V(r) >= 0, V(r) <= V(a))), z3.Implies(V(a) <= 0, V(r) <= 0))))
                if ib & (ib - 1) == 0 and ib < 2 ** 12:
                    # dividing by a power of two is exact away from underflow
                    s.fact(z3.Implies(z3.And(z3.Not(N(a)), V(a) <= 2 ** 100, V(a) >= -2 ** 100, z3.Or(V(a) == 0, V(a) >= z3.Q(1, 2 ** 60), V(a) <= z3.Q(-1, 2 ** 60))), V(r) == V(a) / ib))
                if ia is not None and ib < 2 ** 12:
                    s.quot[r.get_id()] = (r, ia, ib)
        return r

    def cmp(s, op, a, b):
        if isinstance(a, FC) and isinstance(b, FC):
            x, y = to_py(a), to_py(b)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        a, b = s.term(a), s.term(b)
        w = s.w(a); V, N = VAL[w], NAN[w]
        ok = z3.And(z3.Not(N(a)), z3.Not(N(b)))
        if op == "<": return z3.And(ok, V(a) < V(b))
        if op == "<=": return z3.And(ok, V(a) <= V(b))
        if op == ">": return z3.And(ok, V(a) > V(b))
        if op == ">=": return z3.And(ok, V(a) >= V(b))
        if op == "==": return z3.And(ok, V(a) == V(b))
        if op == "!=": return z3.Not(z3.And(ok, V(a) == V(b)))

    def isinf(s, x):
        if isinstance(x, FC): return fval(x.bits, x.w) in ("inf", "-inf")
        w = s.w(x); t = s.term(x)
        return z3.And(z3.Not(NAN[w](t)), z3.Or(VAL[w](t) == INFV[w], VAL[w](t) == -INFV[w]))

    def math(s, name, args, w):
        base = name[:-1] if w == 32 and name.endswith("f") and name not in ("erf",) else name
        if all(isinstance(a, FC) for a in args) and base in ("floor", "ceil", "fabs", "round", "trunc"):
            import math
            v = to_py(args[0])
            if v == v and abs(v) != float("inf"):
                r = {"floor": math.floor, "ceil": math.ceil, "fabs": abs, "trunc": math.trunc,
                     "round": lambda z: math.floor(abs(z) + 0.5) * (1 if z >= 0 else -1)}[base](v)
                return from_py(w, float(r))
        ts = [s.term(a) for a in args]
        if base in ("floor", "ceil", "trunc", "round") and ts[0].decl().name() == "f!i2f%d" % w: return ts[0]
        r = s.UF(base + str(w), *([SORT[w]] * (len(ts) + 1)))(*ts)
        if not s._new(r): return r
        V, N = VAL[w], NAN[w]
        x = ts[0]
        lim = 2 ** MANT[w]
        if base == "fabs":
            s.fact(z3.And(N(r) == N(x), V(r) == z3.If(V(x) >= 0, V(x), -V(x))))
            i = s.iv(x)
            if i is not None: s.ival[r.get_id()] = (r, z3.If(i >= 0, i, -i) if not is_py(i) else abs(i))
        elif base in ("floor", "ceil", "trunc", "round"):
            s.fact(N(r) == N(x))
            q = s.quot.get(x.get_id())
            if q and base in ("floor", "ceil"):
                n, k = q[1], q[2]
                m = n / k if base == "floor" else -((-n) / k)
                s.ival[r.get_id()] = (r, m)
                # n/k is at least 1/k away from the next integer unless exact
                qlim = 2 ** (MANT[w] - 2)
                s.fact(z3.Implies(z3.And(n <= qlim, n >= -qlim), z3.And(z3.Not(N(r)), V(r) == z3.ToReal(m))))
            else:
                f = z3.ToInt(V(x)); F = z3.ToReal(f)
                inr = z3.And(z3.Not(N(x)), V(x) <= lim, V(x) >= -lim)
                if base == "floor": e = F
                elif base == "ceil": e = z3.If(F == V(x), F, F + 1)
                elif base == "trunc": e = z3.If(z3.Or(V(x) >= 0, F == V(x)), F, F + 1)
                else:
                    h = z3.Q(1, 2)
                    e = z3.If(V(x) >= 0, z3.ToReal(z3.ToInt(V(x) + h)), -z3.ToReal(z3.ToInt(-V(x) + h)))
                s.fact(z3.Implies(inr, V(r) == e))
        elif base == "sqrt":
            s.fact(z3.Implies(z3.And(z3.Not(N(x)), V(x) >= 0), z3.And(z3.Not(N(r)), V(r) >= 0)))
            s.fact(z3.Implies(z3.Or(N(x), V(x) < 0), N(r)))
        elif base in ("fmin", "fmax"):
            y = ts[1]
            c = V(x) <= V(y) if base == "fmin" else V(x) >= V(y)
            s.fact(z3.If(N(x), r == y, z3.If(N(y), r == x, z3.And(z3.Not(N(r)), V(r) == z3.If(c, V(x), V(y))))))
        elif base == "exp":
            s.fact(z3.And(N(r) == N(x), z3.Implies(z3.Not(N(x)), V(r) >= 0)))
        return r
