"""Front end: loads the GOTO program goto-cc built from the real sources.

The program is obtained with `goto-instrument --show-goto-functions --json-ui`
and `--show-symbol-table --json-ui`; nothing is rewritten by hand."""
import json, struct, subprocess
from fractions import Fraction

class Unsupported(Exception):
    pass

class X:
    """expression node"""
    __slots__ = ("op", "a", "t", "v", "uid")
    _n = 0
    def __init__(s, op, a, t, v=None):
        s.op, s.a, s.t, s.v = op, a, t, v
        X._n += 1
        s.uid = X._n
    def __repr__(s):
        return "%s%s%s" % (s.op, "{%s}" % (s.v,) if s.v is not None else "", s.a if s.a else "")

class Ins:
    __slots__ = ("kind", "x", "lhs", "fn", "args", "guard", "targets", "loc", "line", "file", "msg")
    def __repr__(s):
        return "<%s %s>" % (s.kind, s.line)

def _ns(n, k):
    r = n.get("namedSub", {}).get(k)
    return None if r is None else r.get("id")

class Prog:
    def __init__(s, gb):
        fj = json.loads(subprocess.run(["goto-instrument", "--show-goto-functions", "--json-ui", gb],
                                       stdout=subprocess.PIPE, check=True).stdout, strict=False)
        sj = json.loads(subprocess.run(["goto-instrument", "--show-symbol-table", "--json-ui", gb],
                                       stdout=subprocess.PIPE, check=True).stdout, strict=False)
        s.sym = [e for e in sj if "symbolTable" in e][0]["symbolTable"]
        s.fjson = {f["name"]: f for f in [e for e in fj if "functions" in e][0]["functions"]}
        s.funcs = {}
        s.structs = {}
        s._sz = {}

    # ---- types -----------------------------------------------------------
    def T(s, n):
        i = n["id"]
        if i == "signedbv": return ("i", int(_ns(n, "width")), True)
        if i == "unsignedbv": return ("i", int(_ns(n, "width")), False)
        if i == "c_bool": return ("cb",)
        if i == "bool": return ("b",)
        if i == "floatbv": return ("f", int(_ns(n, "width")))
        if i == "pointer": return ("p", s.T(n["sub"][0]) if n["sub"][0]["id"] != "code" else ("fn",))
        if i == "struct_tag": return ("s", _ns(n, "identifier"))
        if i == "union_tag": return ("u", _ns(n, "identifier"))
        if i == "c_enum_tag":
            sy = s.sym[_ns(n, "identifier")]["type"]
            return s.T(sy["sub"][0]) if sy.get("sub") else ("i", 32, False)
        if i == "c_enum": return s.T(n["sub"][0])
        if i == "c_bit_field":
            b = s.T(n["sub"][0])
            return ("i", int(_ns(n, "width")), b[2] if b[0] == "i" else False)
        if i == "array":
            sz = n["namedSub"].get("size")
            el = s.T(n["sub"][0])
            if sz is None or sz["id"] == "nil" or sz["id"] == "": return ("a", el, None)
            x = s.E(sz)
            while x.op == "cast" and x.a[0].op == "const": x = x.a[0]
            return ("a", el, x.v if x.op == "const" else x)
        if i == "empty": return ("v",)
        if i == "code": return ("fn",)
        if i in ("struct", "union"): return ("anon", i)
        if i == "complex" or i == "vector": return ("u", i)
        if i == "string" : return ("v",)
        if i == "natural" or i == "integer": return ("i", 64, True)
        if i == "" or i == "nil": return ("v",)
        raise Unsupported("type " + i)

    def fields(s, tag):
        if tag not in s.structs:
            ty = s.sym[tag]["type"]
            comps = ty["namedSub"].get("components", {"sub": []}).get("sub", [])
            s.structs[tag] = [(_ns(c, "name"), s.T(c["namedSub"]["type"])) for c in comps]
        return s.structs[tag]

    def sizeof(s, t):
        k = t[0]
        if k == "i": return (t[1] + 7) // 8 if t[1] >= 8 else Fraction(t[1], 8)
        if k == "cb": return 1
        if k == "f": return t[1] // 8
        if k == "p": return 8
        if k == "a":
            if not isinstance(t[2], int): raise Unsupported("sizeof vla")
            return t[2] * s.sizeof(t[1])
        if k == "s":
            if t[1] not in s._sz:
                tot = Fraction(0)
                for f, ft in s.fields(t[1]):
                    if ft[0] == "a" and ft[2] in (None, 0): continue
                    if ft[0] == "i" and ft[1] % 8: tot += Fraction(ft[1], 8)
                    else: tot += s.sizeof(ft)
                s._sz[t[1]] = int(tot)
            return s._sz[t[1]]
        if k == "u":
            return 8 * max([1] + [int(s.sizeof(ft) + 7) // 8 for f, ft in s.fields(t[1])])
        if k == "v" or k == "fn": return 1
        raise Unsupported("sizeof %s" % (t,))

    # ---- expressions -----------------------------------------------------
    OPS = {"+": "+", "-": "-", "*": "*", "/": "/", "mod": "%", "=": "==", "notequal": "!=",
           "<": "<", "<=": "<=", ">": ">", ">=": ">=", "and": "&&", "or": "||", "not": "!",
           "=>": "=>", "if": "?", "unary-": "neg", "unary+": "pos", "bitand": "&", "bitor": "|",
           "bitxor": "^", "bitnot": "~", "shl": "shl", "ashr": "ashr", "lshr": "lshr",
           "typecast": "cast", "dereference": "deref", "address_of": "addr", "index": "idx",
           "ieee_float_equal": "==", "ieee_float_notequal": "!=", "xor": "xor",
           "floatbv_typecast": "cast", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "isnormal": "isnormal",
           "abs": "abs", "sign": "sign", "pointer_offset": "poff", "pointer_object": "pobj",
           "array": "array", "struct": "struct", "array_of": "array_of", "union": "union",
           "floatbv_plus": "+", "floatbv_minus": "-", "floatbv_mult": "*", "floatbv_div": "/", "floatbv_mod": "fmod"}

    def E(s, n):
        i = n["id"]
        t = s.T(n["namedSub"]["type"]) if "type" in n.get("namedSub", {}) else None
        if i == "symbol": return X("sym", (), t, _ns(n, "identifier"))
        if i == "constant":
            v = _ns(n, "value")
            if t[0] == "b": return X("const", (), t, v == "true" or v == "1")
            if t[0] == "p":
                if v == "NULL" or v == "0": return X("null", (), t)
                return X("const", (), t, int(v, 16))
            if t[0] == "f":
                return X("fconst", (), t, int(v, 16))
            if t[0] in ("i", "cb"):
                u = int(v, 16)
                if t[0] == "i" and t[2] and u >= 1 << (t[1] - 1): u -= 1 << t[1]
                return X("const", (), t, u)
            raise Unsupported("constant of type %s" % (t,))
        if i == "string_constant": return X("str", (), t, _ns(n, "value"))
        if i == "member": return X("mem", (s.E(n["sub"][0]),), t, _ns(n, "component_name"))
        if i == "nil": return None
        if i == "side_effect":
            return X("nondet", (), t, _ns(n, "statement"))
        if i in s.OPS:
            return X(s.OPS[i], tuple(s.E(c) for c in n.get("sub", [])), t)
        return X("unsupported:" + i, (), t)

    def has(s, f):
        j = s.fjson.get(f)
        return bool(j and j.get("isBodyAvailable"))

    def func(s, f):
        if f in s.funcs: return s.funcs[f]
        j = s.fjson[f]
        ins = []
        base = None
        for r in j["instructions"]:
            o = Ins()
            o.kind = r["instructionId"]
            sl = r.get("sourceLocation", {})
            o.line, o.file = sl.get("line"), sl.get("file")
            o.msg = sl.get("comment")
            o.loc = r.get("locationNumber")
            o.x = o.lhs = o.fn = o.guard = None
            o.args = ()
            o.targets = r.get("targets", [])
            if base is None: base = o.loc
            c = r.get("code")
            if "guard" in r: o.guard = s.E(r["guard"])
            elif c is not None and c["id"] != "code": o.guard = None
            if c is not None and c["id"] == "code":
                st = _ns(c, "statement")
                sub = c.get("sub", [])
                if o.kind == "ASSIGN":
                    o.lhs, o.x = s.E(sub[0]), s.E(sub[1])
                elif o.kind in ("DECL", "DEAD"):
                    o.lhs = s.E(sub[0])
                elif o.kind == "FUNCTION_CALL":
                    o.lhs = s.E(sub[0])
                    o.fn = s.E(sub[1])
                    o.args = tuple(s.E(a) for a in sub[2].get("sub", []))
                elif o.kind == "SET_RETURN_VALUE":
                    o.x = s.E(sub[0]) if sub else None
                elif o.kind == "OTHER":
                    o.msg = st
            ins.append(o)
        for o in ins: o.targets = [t - base for t in o.targets]
        # location numbers are consecutive within a function
        for k, o in enumerate(ins): assert o.loc - base == k, (f, k, o.loc, base)
        s.funcs[f] = (ins, j["parameterIdentifiers"])
        return s.funcs[f]

def fval(bits, w):
    """exact value of an IEEE bit pattern: Fraction, or 'nan'/'inf'/'-inf'"""
    if w == 32:
        eb, fb, bias = 8, 23, 127
    elif w == 64:
        eb, fb, bias = 11, 52, 1023
    else:
        eb, fb, bias = 15, 112, 16383
    sg = bits >> (eb + fb) & 1
    e = bits >> fb & ((1 << eb) - 1)
    m = bits & ((1 << fb) - 1)
    if e == (1 << eb) - 1:
        return "nan" if m else ("-inf" if sg else "inf")
    v = Fraction(m, 1 << fb)
    v = (v + 1) * Fraction(2) ** (e - bias) if e else v * Fraction(2) ** (1 - bias)
    return -v if sg else v
