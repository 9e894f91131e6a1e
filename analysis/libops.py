"""Binary operators and comparisons on abstract values."""
from . import nf, arr as A
from .nf import ONE, ZERO, const, atom, Poly, lift
from .values import *
from .arr import Unknown
from .libcore import *
from .libcore import is_num, npoly, nkind, nlib, _I


def floordiv(p, q):
    a, b = p.const(), q.const()
    if a is not None and b is not None:
        if b == 0:
            raise AbsRaise("ZeroDivisionError", "division by zero")
        return const(a // b)
    if q is ONE and nf.is_int(p):
        return p
    if len(q.terms) == 1:
        d = nf.divides(p, q)
        if d is not None and nf.is_int(d):
            return d
    return nf.mkfn("floordiv", p, q)


def modp(p, q):
    a, b = p.const(), q.const()
    if a is not None and b is not None:
        if b == 0:
            raise AbsRaise("ZeroDivisionError", "modulo by zero")
        return const(a - b * (a // b))
    f = floordiv(p, q)
    s = f.single()
    if s is None or s.args[0] != "floordiv":
        return p - q * f
    return nf.mkfn("mod", p, q)


def scalar_op(op, a, b, ka, kb, np_=False):
    """-> Poly, kind"""
    if op == "Add":
        p = a + b
    elif op == "Sub":
        p = a - b
    elif op == "Mult":
        p = a * b
    elif op == "Div":
        c = b.const()
        if c == 0:
            if np_:
                return nf.mkfn("div0", a), "float"
            raise AbsRaise("ZeroDivisionError", "division by zero")
        return a * nf.power(b, -1), "float"
    elif op == "FloorDiv":
        p = floordiv(a, b)
    elif op == "Mod":
        p = modp(a, b)
    elif op == "Pow":
        c = b.const()
        if c is not None and c < 0 and ka != "float" and kb != "float":
            return nf.power(a, c), "float"
        p = nf.mkfn("pow", a, b)
    elif op in ("BitAnd", "BitOr", "BitXor"):
        if ka == "bool" and kb == "bool":
            if op == "BitAnd":
                return a * b, "bool"
            if op == "BitOr":
                return a + b - a * b, "bool"
            return a + b - const(2) * a * b, "bool"
        x, y = a.const(), b.const()
        if x is not None and y is not None:
            x, y = int(x), int(y)
            return const({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]), "int"
        p = nf.mkfn(op, a, b)
        return p, "int"
    elif op in ("LShift", "RShift"):
        return nf.mkfn(op, a, b), "int"
    else:
        raise AbsRaise("TypeError", f"unsupported operand for {op}")
    k = "float" if "float" in (ka, kb) else "int"
    if np_ and ka == kb == "bool" and op in ("Add", "Mult"):
        if op == "Mult":
            return a * b, "bool"
        return a + b - a * b, "bool"
    if np_ and ka == kb == "bool" and op == "Sub":
        raise AbsRaise("TypeError", "numpy boolean subtract is not supported")
    return p, k


RDUN = {"Add": "__radd__", "Sub": "__rsub__", "Mult": "__rmul__", "Div": "__rtruediv__", "FloorDiv": "__rfloordiv__",
        "Mod": "__rmod__", "Pow": "__rpow__", "MatMult": "__rmatmul__", "BitAnd": "__rand__", "BitOr": "__ror__",
        "BitXor": "__rxor__"}


def binop(I, op, l, r):
    if isinstance(l, TopV):
        return l
    if isinstance(r, TopV):
        return r
    if is_num(l) and is_num(r):
        L = nlib(l) if nlib(l) != "py" else nlib(r)
        try:
            p, k = scalar_op(op, npoly(l), npoly(r), nkind(l), nkind(r), L != "py")
        except AbsRaise as e:
            e.where = e.where or I.where()
            raise
        return mknum(p, k, L)
    la, ra = is_arr(I, l), is_arr(I, r)
    if la or ra:
        lib = I.get(l).lib if la else I.get(r).lib
        if la and ra and I.get(l).lib != I.get(r).lib:
            libs = {I.get(l).lib, I.get(r).lib}
            lib = "torch" if "torch" in libs else "jax"
        for v, o in ((l, r), (r, l)):
            if isinstance(v, Ref) and I.get(v).kind == "obj" and isinstance(I.get(v).cls, ClsV):
                nm = _I().BINDUNDER[op] if v is l else RDUN[op]
                f, _ = I.get(v).cls.find(nm)
                if f is not None:
                    return I.call(BoundV(f, v), [o], {})
            if isinstance(v, (str, StrV)) or v is None or isinstance(v, (FnV, BoundV, ClsV, ModV)):
                raise AbsRaise("TypeError", f"unsupported operand type(s) for {op}: array and {v!r}", I.where())
        a, b = toarr(I, l, lib), toarr(I, r, lib)
        if I.grad is not None:
            if op == "Pow" and not b.dims and b.body.const() is not None and 0 < b.body.const() < 1:
                I.roots.append(("power", a, I.where()))
            if lib == "np":
                a, b = stopped(I, a), stopped(I, b)
        if op == "MatMult":
            return W(I, A.matmul(a, b, lib), lib)
        kk = [None]

        def fn(x, y):
            p, kk[0] = scalar_op(op, x, y, a.dt, b.dt, True)
            return p
        dims, bodies = A.broadcast([a, b])
        p = fn(*bodies)
        return W(I, ArrC(dims, p, kk[0], lib), lib)
    # sequences
    if isinstance(l, tuple) and isinstance(r, tuple) and op == "Add":
        return l + r
    if isinstance(l, tuple) and isinstance(r, int) and op == "Mult":
        return l * r
    if isinstance(l, Ref) and I.get(l).kind == "list":
        if op == "Add" and isinstance(r, Ref):
            items = iterate(I, r) if I.get(r).kind in ("list", "condlist") else None
            if I.get(r).kind in ("list", "condlist"):
                its = list(I.get(l).items) + items
                if any(isinstance(x, _I().CondItem) for x in its):
                    return I.alloc(_I().CondListC(its))
                return I.new_list(its)
        if op == "Mult" and isinstance(r, int):
            return I.new_list(list(I.get(l).items) * r)
        if op == "Mult" and is_num(r) and len(I.get(l).items) == 1:
            x = I.get(l).items[0]
            return I.alloc(SymListC(SeqV(npoly(r), lambda p: x, "list")))
    if isinstance(r, Ref) and I.get(r).kind == "list" and op == "Mult" and is_num(l):
        return binop(I, op, r, l)
    if isinstance(l, (str, StrV)) or isinstance(r, (str, StrV)):
        if isinstance(l, str) and isinstance(r, str) and op == "Add":
            return l + r
        if isinstance(l, str) and isinstance(r, int) and op == "Mult":
            return l * r
        if op == "Mod" and isinstance(l, (str, StrV)):
            return StrV((l, r))
        if op == "Add" and isinstance(l, (str, StrV)) and isinstance(r, (str, StrV)):
            return StrV((l, r))
        raise AbsRaise("TypeError", "unsupported operand types for string", I.where())
    for v, o, nm in ((l, r, _I().BINDUNDER[op]), (r, l, RDUN[op] if op in RDUN else "")):
        if isinstance(v, Ref) and I.get(v).kind == "obj" and isinstance(I.get(v).cls, ClsV):
            f, _ = I.get(v).cls.find(nm)
            if f is not None:
                return I.call(BoundV(f, v), [o], {})
    if isinstance(l, (ExtV, ClsV)) or isinstance(r, (ExtV, ClsV)):
        if op == "BitOr":
            return ExtV("typing.Union")
        return I.top("operator on external value")
    if isinstance(l, Ref) and isinstance(r, Ref) and I.get(l).kind == I.get(r).kind == "dict" and op == "BitOr":
        d = dict(I.get(l).d)
        d.update(I.get(r).d)
        return I.new_dict(d)
    if isinstance(l, Ref) and isinstance(r, Ref) and I.get(l).kind == I.get(r).kind == "set":
        a, b = I.get(l).items, I.get(r).items
        if op == "Sub":
            return I.alloc(SetC([x for x in a if x not in b]))
        if op == "BitOr":
            return I.alloc(SetC(a + [x for x in b if x not in a]))
        if op == "BitAnd":
            return I.alloc(SetC([x for x in a if x in b]))
    for v in (l, r):
        if isinstance(v, Ref) and I.get(v).kind in ("symlist", "condlist", "philist", "gen"):
            return I.top("operator on symbolic sequence")
        if isinstance(v, Ref) and I.get(v).kind == "obj" and not isinstance(I.get(v).cls, ClsV):
            return I.top("operator on external object")
    if not any(v is None or isinstance(v, (FnV, BoundV, ModV)) or isinstance(v, Ref) and I.get(v).kind in ("dict", "obj") for v in (l, r)):
        return I.top(f"operator {op} on {I.describe(l)} and {I.describe(r)}")
    raise AbsRaise("TypeError", f"unsupported operand type(s) for {op}: {I.describe(l)} and {I.describe(r)}", I.where())


# ------------------------------------------------------------------- compare
CMPDUN = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}


def cmp_poly(op, a, b):
    if op == "Eq":
        return nf.mkeq(a, b)
    if op == "NotEq":
        return ONE - nf.mkeq(a, b)
    if op == "Lt":
        return nf.mkgt(b - a)
    if op == "LtE":
        return nf.mkge(b - a)
    if op == "Gt":
        return nf.mkgt(a - b)
    if op == "GtE":
        return nf.mkge(a - b)
    raise Unknown(op)


def compare(I, op, l, r):
    if op in ("Is", "IsNot"):
        v = is_op(I, l, r)
        return I.unop("Not", v) if op == "IsNot" else v
    if op in ("In", "NotIn"):
        v = in_op(I, l, r)
        return I.unop("Not", v) if op == "NotIn" else v
    if isinstance(l, TopV) or isinstance(r, TopV):
        return Num(I.topguard("comparison of unknown"), "bool")
    if is_num(l) and is_num(r):
        lib = nlib(l) if nlib(l) != "py" else nlib(r)
        if op in ("Eq", "NotEq"):
            nf.assume_sizes(npoly(l), npoly(r))
        return mknum(I.simp(cmp_poly(op, npoly(l), npoly(r))), "bool", lib)
    la, ra = is_arr(I, l), is_arr(I, r)
    if la or ra:
        o = r if la else l
        if isinstance(o, (str, StrV)) or o is None:
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
            raise AbsRaise("TypeError", "comparison of array with non number", I.where())
        lib = I.get(l).lib if la else I.get(r).lib
        a, b = toarr(I, l, lib), toarr(I, r, lib)
        dims, (x, y) = A.broadcast([a, b])
        return W(I, ArrC(dims, cmp_poly(op, x, y), "bool", lib), lib)
    if op in ("Eq", "NotEq"):
        v = eq_val(I, l, r)
        return v if op == "Eq" else I.unop("Not", v)
    for v, o, nm in ((l, r, op), (r, l, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[op])):
        if isinstance(v, Ref) and I.get(v).kind == "obj" and isinstance(I.get(v).cls, ClsV):
            f, _ = I.get(v).cls.find(CMPDUN[nm])
            if f is not None:
                return I.call(BoundV(f, v), [o], {})
    if isinstance(l, str) and isinstance(r, str):
        return {"Lt": l < r, "LtE": l <= r, "Gt": l > r, "GtE": l >= r}[op]
    if isinstance(l, (Ref,)) and I.get(l).kind == "obj" and not isinstance(I.get(l).cls, ClsV):
        return Num(I.topguard("comparison of external object"), "bool")
    if isinstance(l, tuple) and isinstance(r, tuple):
        return Num(I.topguard("tuple order"), "bool")
    raise AbsRaise("TypeError", f"'{op}' not supported between instances of {I.describe(l)} and {I.describe(r)}", I.where())


def both(vals):
    r = ONE
    for v in vals:
        r = r * (lift(v) if isinstance(v, bool) else v.p)
    return mknum(r, "bool")


def eq_val(I, l, r):
    if isinstance(l, PhiV) or isinstance(r, PhiV):
        return I.compare("Eq", l, r)
    if isinstance(l, TopV) or isinstance(r, TopV):
        return Num(I.topguard("equality of unknown"), "bool")
    if is_num(l) and is_num(r):
        nf.assume_sizes(npoly(l), npoly(r))
        return mknum(I.simp(nf.mkeq(npoly(l), npoly(r))), "bool")
    if isinstance(l, StrV) or isinstance(r, StrV):
        if isinstance(l, StrV) and isinstance(r, StrV) and l.parts == r.parts:
            return True
        if isinstance(l, (str, StrV)) and isinstance(r, (str, StrV)):
            return Num(I.topguard("equality of formatted string"), "bool")
        return False
    if isinstance(l, tuple) and isinstance(r, tuple):
        if len(l) != len(r):
            return False
        return both([_b(I, eq_val(I, x, y)) for x, y in zip(l, r)])
    if isinstance(l, Ref) and isinstance(r, Ref):
        if l == r:
            return True
        a, b = I.get(l), I.get(r)
        if a.kind == b.kind == "list":
            if len(a.items) != len(b.items):
                return False
            return both([_b(I, eq_val(I, x, y)) for x, y in zip(a.items, b.items)])
        if a.kind == "obj" and isinstance(a.cls, ClsV):
            f, _ = a.cls.find("__eq__")
            if f is not None:
                return I.call(BoundV(f, l), [r], {})
            return False
        if a.kind == b.kind == "dict" and not a.conds and not b.conds:
            if list(a.d) and set(a.d) != set(b.d):
                return False
            return both([_b(I, eq_val(I, a.d[k], b.d[k])) for k in a.d])
        if a.kind == b.kind == "set":
            return all(x in b.items for x in a.items) and all(x in a.items for x in b.items)
        if a.kind != b.kind and not {"symlist", "philist", "condlist", "gen"} & {a.kind, b.kind}:
            return False
        return Num(I.topguard("equality of containers"), "bool")
    for v, o in ((l, r), (r, l)):
        if isinstance(v, Ref) and I.get(v).kind == "obj" and isinstance(I.get(v).cls, ClsV):
            f, _ = I.get(v).cls.find("__eq__")
            if f is not None:
                return I.call(BoundV(f, v), [o], {})
            return False
    if isinstance(l, RangeV) and isinstance(r, RangeV):
        return both([_b(I, eq_val(I, x, y)) for x, y in ((l.lo, r.lo), (l.hi, r.hi), (l.step, r.step))])
    return bool(type(l) is type(r) and l == r)


def _b(I, v):
    t = I.truth(v)
    return t if isinstance(t, bool) else Num(t, "bool")


def is_op(I, l, r):
    if isinstance(l, TopV) or isinstance(r, TopV):
        if l is r:
            return True
        return Num(I.topguard("identity of unknown"), "bool")
    for a, b in ((l, r), (r, l)):
        if isinstance(b, bool):
            if isinstance(a, bool):
                return a is b
            if isinstance(a, Num) and a.kind == "bool" and a.lib == "py":
                return mknum(I.simp(a.p if b else ONE - a.p), "bool")
            return False
        if b is None:
            return a is None
    if isinstance(l, int) and isinstance(r, int):
        return l == r
    if isinstance(l, Num) and isinstance(r, Num):
        return l is r
    if isinstance(l, Ref) and isinstance(r, Ref):
        return l == r
    if isinstance(l, str) and isinstance(r, str):
        return l == r
    if isinstance(l, (ExtV, BoundV)) and isinstance(r, (ExtV, BoundV)):
        return l == r
    return l is r


def in_op(I, x, c):
    if isinstance(c, PhiV):
        return I.split(c, lambda y: in_op(I, x, y))
    if isinstance(c, TopV) or isinstance(x, TopV):
        return Num(I.topguard("membership of unknown"), "bool")
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        if isinstance(x, StrV):
            return Num(I.topguard("substring"), "bool")
        raise AbsRaise("TypeError", "'in <string>' requires string as left operand", I.where())
    if isinstance(c, StrV):
        return Num(I.topguard("substring"), "bool")
    if isinstance(c, Ref):
        h = I.get(c)
        if h.kind == "dict":
            if isinstance(x, StrV):
                return Num(I.topguard("membership of symbolic key"), "bool")
            hits = lookup(I, h, hashable(I, x))
            g = ZERO
            for q, _ in hits:
                g = g + q
            return mknum(I.simp(g), "bool") if hits else False
        if h.kind == "obj" and isinstance(h.cls, ClsV):
            f, _ = h.cls.find("__contains__")
            if f is not None:
                return I.call(BoundV(f, c), [x], {})
        if h.kind == "arr":
            a = I.arr(c)
            b = toarr(I, x, a.lib)
            e = A.elementwise(nf.mkeq, [a, b], "bool", a.lib)
            return mknum(A.reduce_(e, None, False, A.r_any).body, "bool")
    items = iterate(I, c)
    if items is None:
        return Num(I.topguard("membership"), "bool")
    if isinstance(items, SeqV):
        t = nf.tmp(items.n)
        e = eq_val(I, items.get(atom(t)), x)
        p = lift(e) if isinstance(e, bool) else e.p
        return mknum(A.r_any(p, [t]), "bool")
    r = ZERO
    for y in items:
        g = ONE
        if isinstance(y, _I().CondItem):
            g, y = y.g, y.v
        e = eq_val(I, x, y)
        t = I.truth(e)
        p = (lift(t) if isinstance(t, bool) else t) * g
        r = r + p - r * p
    return mknum(I.simp(r), "bool")
