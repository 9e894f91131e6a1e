"""Python built-ins, methods and non-array external calls."""
import ast
from fractions import Fraction
from . import nf, arr as A
from .nf import ONE, ZERO, const, atom, subst, Poly, lift
from .values import *
from .arr import Unknown
from .libcore import *
from .libcore import is_num, npoly, nkind, nlib, _I
from . import libops, libfun
from .libfun import FUN, Args

EXT = {}      # dotted path -> fn(I, args, kwargs)
CONSTS = {
    "numpy.newaxis": None, "jax.numpy.newaxis": None,
}
SYMS = {"inf": "inf", "pi": "pi", "nan": "nan", "e": "e"}
nf.SYM_MIN.update({"inf": 1, "pi": 3})


def ext(*paths):
    def d(f):
        for p in paths:
            EXT[p] = f
        return f
    return d


def ext_attr(I, e, name):
    path = e.path + "." + name
    if path in CONSTS:
        return CONSTS[path]
    if name in SYMS and e.path.split(".")[0] in ("numpy", "torch", "jax", "math"):
        return Num(nf.sym(SYMS[name]), "float", "py")
    if path in I.overrides:
        v = I.overrides[path]
        return v
    root = path.split(".")[0]
    if root in OPTIONAL and root not in I.enabled and e.path != "builtins":
        raise AbsRaise("ModuleNotFoundError", f"No module named {root!r}", I.where())
    if path in ("numpy.ndarray", "torch.Tensor") or True:
        return ExtV(path)


OPTIONAL = {"hnswlib", "mpi4py", "matplotlib", "pandas", "tensorflow_probability", "absl"}


def call_ext(I, path, args, kwargs):
    if path in I.overrides and isinstance(I.overrides[path], NativeV):
        return I.overrides[path].fn(I, args, kwargs)
    f = EXT.get(path)
    lib, name = libof(path)
    raw = path in RAW
    if not raw:
        for i, a in enumerate(args):
            if isinstance(a, PhiV):
                a = I.resolve(a)
                args = args[:i] + [a] + args[i + 1:]
            if isinstance(a, PhiV):
                return I.split(a, lambda x, i=i: call_ext(I, path, args[:i] + [x] + args[i + 1:], kwargs))
        for q, a in list(kwargs.items()):
            if isinstance(a, PhiV):
                a = I.resolve(a)
                kwargs = {**kwargs, q: a}
            if isinstance(a, PhiV):
                return I.split(a, lambda x, q=q: call_ext(I, path, args, {**kwargs, q: x}))
    if f is not None:
        return f(I, args, kwargs)
    if path.startswith("builtins."):
        n = path[9:]
        if n.endswith(("Error", "Exception", "Warning")) or n in ("Exception", "BaseException", "StopIteration"):
            return I.alloc(ObjC(ClsV(n, [], {}, None), {"args": tuple(args)}))
        raise Unknown("builtin " + n)
    if path.startswith("typing."):
        return args[-1] if path == "typing.cast" else I.top(path)
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, TopV):
            return TopV(f"{path}({a.why})"[:200])
    if lib is not None:
        g = FUN.get(name)
        if g is None and "." in name and FUN.get(name.rsplit(".", 1)[1]) and name.split(".")[0] in ("nn", "special", "functional", "linalg", "lax", "scipy"):
            g = FUN.get(name.rsplit(".", 1)[1])
        if g is not None:
            return g(I, lib, args, kwargs)
        dt = dtype_of(ExtV(path))
        if dt is not None and lib in ("np", "jax") and len(args) == 1:
            return W(I, cast(toarr(I, args[0], lib), dt), lib)
    I.event("extcall", path=path, args=args, kwargs=kwargs)
    return I.top(f"call of {path}")


# paths whose model handles alternatives itself
RAW = {"builtins.isinstance", "builtins.print", "builtins.id", "builtins.list", "builtins.tuple", "copy.deepcopy", "builtins.bool",
       "builtins.len", "warnings.warn", "builtins.type", "builtins.callable", "builtins.setattr", "builtins.getattr", "builtins.hasattr",
       "builtins.dict"}


# ---------------------------------------------------------------- builtins
def b(name):
    return ext("builtins." + name)


@b("len")
def _len(I, a, k):
    return length(I, a[0])


@b("print")
def _print(I, a, k):
    return None


@ext("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "sys.stdout.flush", "builtins.input")
def _warn(I, a, k):
    I.event("warn")
    return None


@b("range")
def _range(I, a, k):
    a = [I.resolve(x) for x in a]
    for i, x in enumerate(a):
        if is_arr(I, x) and not I.arr(x).dims:
            x = a[i] = mknum(I.arr(x).body, "int")
        if not is_num(x):
            raise Unknown("range bound")
        if nkind(x) == "float":
            raise AbsRaise("TypeError", "'float' object cannot be interpreted as an integer", I.where())
        if isinstance(x, Num):
            a[i] = mknum(x.p, "int")
        elif isinstance(x, bool):
            a[i] = int(x)
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)


@b("enumerate")
def _enum(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = iterate(I, a[0])
    if items is None:
        raise Unknown("enumerate")
    if isinstance(items, SeqV):
        return SeqV(items.n, lambda p: (mknum(p + npoly(start), "int"), items.get(p)), "enumerate")
    out = []
    i = start
    for x in items:
        if isinstance(x, _I().CondItem):
            raise Unknown("enumerate over conditional items")
        out.append((i, x))
        i = i + 1 if isinstance(i, int) else I.binop("Add", i, 1)
    return I.alloc(GenC(out))


@b("zip")
def _zip(I, a, k):
    its = [iterate(I, x) for x in a]
    if any(x is None for x in its):
        raise Unknown("zip")
    if any(isinstance(x, SeqV) for x in its):
        seqs = [x for x in its if isinstance(x, SeqV)]
        n = seqs[0].n
        for s in its:
            m = s.n if isinstance(s, SeqV) else const(len(s))
            if m is not n:
                lo = nf.lower(n - m)
                lo2 = nf.lower(m - n)
                if lo is not None and lo >= 0:
                    n = m
                elif lo2 is not None and lo2 >= 0:
                    pass
                else:
                    raise Unknown("zip of sequences of different symbolic length")
        c = n.const()
        if c is not None:
            return I.alloc(GenC([tuple(s.get(const(i)) if isinstance(s, SeqV) else s[i] for s in its) for i in range(int(c))]))
        if any(not isinstance(s, SeqV) for s in its):
            raise Unknown("zip list with symbolic sequence")
        return SeqV(n, lambda p: tuple(s.get(p) for s in its), "zip")
    if any(isinstance(x, _I().CondItem) for s in its for x in s):
        # presence conditions must agree position by position
        n = {len(s) for s in its}
        if len(n) == 1 and all(all(isinstance(x, _I().CondItem) for x in t) and all(x.g is t[0].g for x in t) or not any(isinstance(x, _I().CondItem) for x in t) for t in zip(*its)):
            out = []
            for t in zip(*its):
                if isinstance(t[0], _I().CondItem):
                    out.append(_I().CondItem(t[0].g, tuple(x.v for x in t)))
                else:
                    out.append(tuple(t))
            return I.alloc(GenC(out))
        raise Unknown("zip over conditional items")
    return I.alloc(GenC([tuple(t) for t in zip(*its)]))


@b("map")
def _map(I, a, k):
    z = iterate(I, _zip(I, a[1:], {}))
    if isinstance(z, SeqV):
        t = nf.tmp(z.n)
        v = I.freeze(I.call(a[0], list(z.get(atom(t))), {}))
        return SeqV(z.n, lambda p: I.thaw(v, {t: p}), "map")
    return I.alloc(GenC([I.call(a[0], list(t), {}) for t in z]))


@b("filter")
def _filter(I, a, k):
    items = iterate(I, a[1])
    if items is None or isinstance(items, SeqV):
        raise Unknown("filter")
    out = []
    for x in items:
        g = ONE
        if isinstance(x, _I().CondItem):
            g, x = x.g, x.v
        t = I.truth(x if a[0] is None else I.call(a[0], [x], {}))
        if t is False:
            continue
        if t is not True:
            g = g * t
        out.append(x if g is ONE else _I().CondItem(g, x))
    return I.alloc(GenC(out))


@b("sorted")
def _sorted(I, a, k):
    items = iterate(I, a[0])
    if items is None or isinstance(items, SeqV) or any(isinstance(x, _I().CondItem) for x in items):
        raise Unknown("sorted")
    key = k.get("key")
    ks = [I.call(key, [x], {}) if key is not None else x for x in items]
    if not all(isinstance(x, (str, int)) or isinstance(x, tuple) and all(isinstance(y, (str, int)) for y in x) for x in ks):
        raise Unknown("sorted on symbolic keys")
    rev = bool(k.get("reverse", False))
    return I.new_list([items[i] for i in sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)])


@b("reversed")
def _reversed(I, a, k):
    items = iterate(I, a[0])
    if items is None or isinstance(items, SeqV):
        if isinstance(items, SeqV):
            return SeqV(items.n, lambda p: items.get(items.n - 1 - p), "reversed")
        raise Unknown("reversed")
    return I.alloc(GenC(items[::-1]))


@b("iter")
def _iter(I, a, k):
    items = iterate(I, a[0])
    if items is None:
        raise Unknown("iter")
    return I.alloc(GenC(items))


@b("next")
def _next(I, a, k):
    g = a[0]
    if isinstance(g, Ref) and I.get(g).kind == "gen" and not isinstance(I.get(g).items, SeqV):
        m = I.mut(g)
        if m.pos < len(m.items):
            x = m.items[m.pos]
            m.pos += 1
            if isinstance(x, _I().CondItem):
                raise Unknown("next of conditional iterator")
            return x
        if len(a) > 1:
            return a[1]
        raise AbsRaise("StopIteration", "", I.where())
    raise Unknown("next")


@b("list")
def _list(I, a, k):
    if not a:
        return I.new_list([])
    v = I.resolve(a[0])
    if isinstance(v, PhiV):
        return I.split(v, lambda x: _list(I, [x], k))
    items = iterate(I, v)
    if items is None:
        return I.top("list of unknown")
    if isinstance(items, SeqV):
        return I.alloc(SymListC(items))
    if any(isinstance(x, _I().CondItem) for x in items):
        return I.alloc(_I().CondListC(items))
    return I.new_list(items)


@b("tuple")
def _tuple(I, a, k):
    if not a:
        return ()
    v = I.resolve(a[0])
    if isinstance(v, PhiV):
        return I.split(v, lambda x: _tuple(I, [x], k))
    items = iterate(I, v)
    if items is None:
        return I.top("tuple of unknown")
    if isinstance(items, SeqV):
        return items
    if any(isinstance(x, _I().CondItem) for x in items):
        return I.alloc(_I().CondListC(items))
    return tuple(items)


@b("set")
@b("frozenset")
def _set(I, a, k):
    items = iterate(I, a[0]) if a else []
    if items is None or isinstance(items, SeqV) or any(isinstance(x, _I().CondItem) for x in items):
        raise Unknown("set of symbolic")
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return I.alloc(SetC(out))


@b("dict")
def _dict(I, a, k):
    d, conds = {}, {}
    if a:
        v = I.resolve(a[0])
        if isinstance(v, Ref) and I.get(v).kind == "dict":
            d.update(I.get(v).d)
            conds.update(I.get(v).conds)
        else:
            items = iterate(I, v)
            if items is None or isinstance(items, SeqV):
                raise Unknown("dict of symbolic")
            for x in items:
                g = ONE
                if isinstance(x, _I().CondItem):
                    g, x = x.g, x.v
                kv = iterate(I, x)
                kk = hashable(I, kv[0])
                d[kk] = kv[1]
                if g is not ONE:
                    conds[kk] = g
    for q, x in k.items():
        d[q] = x
        conds.pop(q, None)
    return I.alloc(DictC(d, None, conds))


@b("sum")
def _sum(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if is_arr(I, a[0]) and len(a) == 1:
        return FUN["sum"](I, I.get(a[0]).lib, [a[0]], {"axis": 0})
    items = iterate(I, a[0])
    if items is None:
        raise Unknown("sum")
    if isinstance(items, SeqV):
        t = nf.tmp(items.n)
        v = items.get(atom(t))
        if is_num(v):
            return mknum(npoly(start) + nf.sum_over(npoly(v), t), nkind(v) if nkind(v) != "bool" else "int", nlib(v))
        c = toarr(I, v)
        return I.binop("Add", start, W(I, c.with_(body=nf.sum_over(c.body, t))))
    r = start
    for x in items:
        if isinstance(x, _I().CondItem):
            x = I.binop("Mult", Num(x.g, "bool"), x.v)
        r = I.binop("Add", r, x)
    return r


def _mm(name):
    def f(I, a, k):
        if len(a) == 1:
            if is_arr(I, a[0]):
                return FUN[name](I, I.get(a[0]).lib, [a[0]], {})
            items = iterate(I, a[0])
            if items is None or isinstance(items, SeqV) or any(isinstance(x, _I().CondItem) for x in items):
                raise Unknown(name)
        else:
            items = list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise AbsRaise("ValueError", f"{name}() arg is an empty sequence", I.where())
        if "key" in k:
            raise Unknown(name + " with key")
        r = items[0]
        for x in items[1:]:
            if isinstance(r, str) and isinstance(x, str):
                r = max(r, x) if name == "max" else min(r, x)
                continue
            if is_arr(I, r) and not I.arr(r).dims:
                r = Num(I.arr(r).body, "float")
            if is_arr(I, x) and not I.arr(x).dims:
                x = Num(I.arr(x).body, "float")
            if not (is_num(r) and is_num(x)):
                raise Unknown(name)
            kind = "float" if "float" in (nkind(r), nkind(x)) else "int"
            r = mknum(A.minmax(name, npoly(r), npoly(x)), kind)
        return r
    EXT["builtins." + name] = f


_mm("max")
_mm("min")


def _anyall(name):
    def f(I, a, k):
        items = iterate(I, a[0])
        if items is None:
            raise Unknown(name)
        if isinstance(items, SeqV):
            t = nf.tmp(items.n)
            p = I.truth(items.get(atom(t)))
            p = lift(p) if isinstance(p, bool) else p
            return mknum((A.r_any if name == "any" else A.r_all)(p, [t]), "bool")
        r = ONE
        for x in items:
            g = ONE
            if isinstance(x, _I().CondItem):
                g, x = x.g, x.v
            t = I.truth(x)
            p = lift(t) if isinstance(t, bool) else t
            if name == "any":
                r = r * (ONE - g * p)
            else:
                r = r * (ONE - g * (ONE - p))
        return mknum(I.simp(ONE - r if name == "any" else r), "bool")
    EXT["builtins." + name] = f


_anyall("any")
_anyall("all")


@b("abs")
def _abs(I, a, k):
    v = a[0]
    if is_num(v):
        return mknum(nf.mkfn("abs", npoly(v)), nkind(v), nlib(v))
    if is_arr(I, v):
        return FUN["abs"](I, I.get(v).lib, [v], {})
    raise Unknown("abs")


@ext("math.sqrt")
def _msqrt(I, a, k):
    return Num(nf.mkfn("sqrt", scal(I, a[0])), "float")


def scal(I, v):
    if is_num(v):
        return npoly(v)
    c = toarr(I, v)
    if any(ax for ax in c.dims):
        raise AbsRaise("TypeError", "only size-1 arrays can be converted to Python scalars", I.where())
    return A.at(c, [[] for _ in c.dims])


for _n in ("exp", "log", "gamma", "erf", "sin", "cos", "floor"):
    def _mk(_n):
        def f(I, a, k):
            return mknum(nf.mkfn(_n, scal(I, a[0])), "int" if _n == "floor" else "float")
        EXT["math." + _n] = f
    _mk(_n)
EXT["math.ceil"] = lambda I, a, k: mknum(-nf.mkfn("floor", -scal(I, a[0])), "int")
EXT["math.pow"] = lambda I, a, k: Num(nf.mkfn("pow", scal(I, a[0]), scal(I, a[1])), "float")
EXT["math.prod"] = lambda I, a, k: _prod(I, iterate(I, a[0]))
EXT["math.lgamma"] = lambda I, a, k: Num(nf.mklog(nf.mkfn("gamma", scal(I, a[0]))), "float")
EXT["math.isnan"] = EXT["math.isinf"] = lambda I, a, k: mknum(nf.mkbool("isnan", (scal(I, a[0]),)), "bool")


def _prod(I, items):
    r = 1
    for x in items:
        r = I.binop("Mult", r, x)
    return r


@b("int")
def _int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        return int(v)
    if isinstance(v, StrV):
        raise Unknown("int of string")
    return mknum(nf.mkfn("int", scal(I, v)), "int")


@b("float")
def _float(I, a, k):
    v = a[0] if a else 0
    if isinstance(v, str):
        if v in ("inf", "infinity"):
            return Num(nf.sym("inf"), "float")
        if v == "-inf":
            return Num(-nf.sym("inf"), "float")
        try:
            return Num(const(Fraction(v)), "float")
        except ValueError:
            raise AbsRaise("ValueError", "could not convert string to float", I.where())
    if I.grad is not None and is_arr(I, v) and I.arr(v).lib == "torch":
        v = I.new_arr(stopped(I, I.arr(v)))
    return Num(scal(I, v), "float")


@b("bool")
def _bool(I, a, k):
    t = I.truth(a[0]) if a else False
    return t if isinstance(t, bool) else mknum(t, "bool")


@b("round")
def _round(I, a, k):
    p = scal(I, a[0])
    return mknum(p if nf.is_int(p) else nf.mkfn("rint", p), "int" if len(a) == 1 else "float")


@b("divmod")
def _divmod(I, a, k):
    return (I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1]))


@b("pow")
def _pow(I, a, k):
    return I.binop("Pow", a[0], a[1])


@b("str")
@b("repr")
@b("format")
def _str(I, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, str):
        return v
    if isinstance(v, (int, bool)) or v is None:
        return str(v)
    if isinstance(v, Ref) and I.get(v).kind == "obj" and isinstance(I.get(v).cls, ClsV):
        f, _ = I.get(v).cls.find("__str__")
        if f is not None:
            return I.call(BoundV(f, v), [], {})
    return StrV((v,))


@b("id")
def _id(I, a, k):
    x = I.resolve(a[0])
    # distinct numbers for distinct objects
    return 10 ** 9 + 64 * x.id if isinstance(x, Ref) else I.top("id")


@b("hash")
def _hash(I, a, k):
    return I.top("hash")


@b("callable")
def _callable(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, PhiV):
        return I.split(v, lambda x: _callable(I, [x], k))
    if isinstance(v, TopV):
        return v
    if isinstance(v, (FnV, BoundV, NativeV, ClsV, ExtV)):
        return True
    if isinstance(v, Ref):
        c = I.get(v)
        if isinstance(c, ObjC) and isinstance(c.cls, ClsV):
            return c.cls.find("__call__")[0] is not None
    return False


@b("slice")
def _slice(I, a, k):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@b("getattr")
def _getattr(I, a, k):
    n = I.resolve(a[1])
    if not isinstance(n, str):
        raise Unknown("getattr with symbolic name")
    if len(a) > 2:
        return I.getattr(a[0], n, a[2])
    return I.getattr(a[0], n)


@b("hasattr")
def _hasattr(I, a, k):
    if isinstance(a[0], PhiV):
        return I.split(I.resolve(a[0]), lambda x: _hasattr(I, [x, a[1]], k)) if isinstance(I.resolve(a[0]), PhiV) else _hasattr(I, [I.resolve(a[0]), a[1]], k)
    if isinstance(a[0], TopV):
        return a[0]
    try:
        v = I._getattr(a[0], a[1])
    except AbsRaise as e:
        if e.exc == "AttributeError":
            return False
        raise
    if isinstance(a[0], ExtV):
        return I.top("hasattr of external")
    return True


@b("setattr")
def _setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])
    return None


@b("vars")
def _vars(I, a, k):
    return I.getattr(a[0], "__dict__")


@b("object")
def _object(I, a, k):
    return I.alloc(ObjC(ClsV("object", [], {}, None), {}))


@b("super")
def _super(I, a, k):
    return SuperV(a[0], a[1])


@b("property")
def _property(I, a, k):
    return PropV(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


@b("staticmethod")
def _static(I, a, k):
    return StaticV(a[0], "staticmethod")


@b("classmethod")
def _clsm(I, a, k):
    return StaticV(a[0], "classmethod")


@b("__import__")
def _import(I, a, k):
    n = a[0]
    if not isinstance(n, str):
        raise Unknown("__import__ of symbolic name")
    m = I.import_module(n)
    fl = k.get("fromlist", a[3] if len(a) > 3 else ())
    if not iterate(I, fl) if fl is not None and fl != () else True:
        return I.import_module(n.split(".")[0])
    if isinstance(m, ModV):
        for x in iterate(I, fl):
            if x not in m.ns and isinstance(m.path, str) and m.path.endswith("__init__.py"):
                try:
                    I.import_module(n + "." + x)
                except AbsRaise:
                    pass
    return m


EXT["importlib.import_module"] = lambda I, a, k: I.import_module(a[0])
EXT["importlib.metadata.version"] = lambda I, a, k: "0"


@b("type")
def _type(I, a, k):
    v = I.resolve(a[0])
    if len(a) == 3:
        raise Unknown("type()")
    if isinstance(v, PhiV):
        return I.split(v, lambda x: _type(I, [x], k))
    return type_of(I, v)


def type_of(I, v):
    if isinstance(v, TopV):
        return v
    B = lambda n: ExtV("builtins." + n)
    if isinstance(v, bool):
        return B("bool")
    if isinstance(v, int):
        return B("int")
    if isinstance(v, Num):
        if v.lib == "py":
            return B(v.kind)
        return ExtV({"float": "numpy.float64", "int": "numpy.int64", "bool": "numpy.bool_"}[v.kind])
    if isinstance(v, (str, StrV)):
        return B("str")
    if v is None:
        return B("NoneType")
    if isinstance(v, (tuple,)):
        return B("tuple")
    if isinstance(v, (FnV, NativeV, BoundV)):
        return B("function")
    if isinstance(v, ClsV):
        return B("type")
    if isinstance(v, Ref):
        c = I.get(v)
        if c.kind == "obj":
            return c.cls
        if c.kind == "arr":
            return ExtV({"np": "numpy.ndarray", "torch": "torch.Tensor", "jax": "jax.numpy.ndarray"}[c.lib])
        return B({"list": "list", "symlist": "list", "condlist": "list", "philist": "list", "dict": "dict", "set": "set", "gen": "generator"}[c.kind])
    return I.top("type")


TUPS = {"builtins.tuple": "tuple", "builtins.list": "list", "builtins.dict": "dict", "builtins.set": "set"}


@b("isinstance")
def _isinstance(I, a, k):
    v, t = I.resolve(a[0]), I.resolve(a[1])
    if isinstance(v, PhiV):
        r = ZERO
        for g, x in v.alts:
            if x is UNDEF:
                continue
            q = _isinstance(I, [x, t], k)
            if isinstance(q, TopV):
                return q
            r = r + g * npoly(q)
        return mknum(I.simp(r), "bool")
    if isinstance(v, TopV) or isinstance(t, TopV):
        return I.top("isinstance of unknown")
    if isinstance(t, tuple):
        r = False
        for x in t:
            q = _isinstance(I, [v, x], k)
            if isinstance(q, TopV):
                return q
            if q is True:
                return True
        return r
    ty = type_of(I, v)
    if isinstance(ty, TopV):
        return ty
    if isinstance(t, ClsV):
        return isinstance(ty, ClsV) and t in ty.mro
    if isinstance(t, ExtV):
        if isinstance(ty, ClsV):
            return any(isinstance(b_, ExtV) and same_type(b_.path, t.path) for b_ in ty.mro) or t.path == "builtins.object"
        return subtype(ty.path, t.path)
    return I.top("isinstance")


def same_type(p, q):
    return p == q or {p, q} <= {"torch.nn.Module", "torch.nn.modules.Module"}


def subtype(p, q):
    if p == q or q in ("builtins.object", "typing.Any"):
        return True
    n = q.rsplit(".", 1)[-1]
    if q == "builtins.int":
        return p in ("builtins.bool",)
    if n in ("Number", "Real", "Complex"):
        return p in ("builtins.int", "builtins.float", "builtins.bool", "numpy.float64", "numpy.int64")
    if n == "Integral":
        return p in ("builtins.int", "builtins.bool", "numpy.int64")
    if q == "builtins.float":
        return p == "numpy.float64"
    if n in ("Sequence", "List", "Iterable", "Collection"):
        if n == "List":
            return p == "builtins.list"
        return p in ("builtins.list", "builtins.tuple", "builtins.str") or (n != "Sequence" and p in ("builtins.dict", "builtins.set"))
    if n == "Callable":
        return p in ("builtins.function", "builtins.type")
    if n in ("Dict", "Mapping", "MutableMapping"):
        return p == "builtins.dict"
    if n == "Tuple":
        return p == "builtins.tuple"
    if n in ("floating", "number", "generic"):
        return p == "numpy.float64" or (n != "floating" and p.startswith("numpy.") and p not in ("numpy.ndarray",))
    if n in ("integer",):
        return p == "numpy.int64"
    if n in ("float32", "float64") and q.startswith("numpy"):
        return p == "numpy.float64" and n == "float64"
    if n in ("ndarray", "Tensor", "Array") and p in ("numpy.ndarray", "torch.Tensor", "jax.numpy.ndarray"):
        return libof(p)[0] == libof(q)[0]
    return False


@b("issubclass")
def _issub(I, a, k):
    if isinstance(a[0], ClsV) and isinstance(a[1], ClsV):
        return a[1] in a[0].mro
    return I.top("issubclass")


# ---------------------------------------------------------------- stdlib
def deepcopy(I, v, memo):
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, PhiV):
        return PhiV([(g, x if x is UNDEF else deepcopy(I, x, memo)) for g, x in v.alts])
    if isinstance(v, BoundV):
        return BoundV(v.fn, deepcopy(I, v.self_, memo))
    if isinstance(v, Ref):
        if v in memo:
            return memo[v]
        c = I.get(v)
        if c.kind == "arr":
            r = I.new_arr(I.arr(v).with_(view=None, root=None))
            memo[v] = r
            return r
        if c.kind == "obj":
            if isinstance(c.cls, ClsV):
                f, _ = c.cls.find("__deepcopy__")
                if f is not None:
                    r = I.call(BoundV(f, v), [I.new_dict()], {})
                    memo[v] = r
                    return r
            r = I.alloc(ObjC(c.cls, {}))
            memo[v] = r
            at = {k: (x if x is UNDEF else deepcopy(I, x, memo)) for k, x in c.attrs.items()}
            I.mut(r).attrs.update(at)
            return r
        if c.kind == "list":
            r = I.new_list([])
            memo[v] = r
            items = [deepcopy(I, x, memo) for x in c.items]
            I.mut(r).items = items
            return r
        if c.kind == "dict":
            r = I.new_dict()
            memo[v] = r
            d = {k: deepcopy(I, x, memo) for k, x in c.d.items()}
            m = I.mut(r)
            m.d, m.conds = d, dict(c.conds)
            return r
        return v
    return v


EXT["copy.deepcopy"] = lambda I, a, k: deepcopy(I, a[0], {})


@ext("copy.copy")
def _copy1(I, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = I.get(v)
        if c.kind == "arr":
            return I.new_arr(I.arr(v).with_(view=None, root=None))
        n = c.copy()
        if hasattr(n, "origin"):
            n.origin = None
        return I.alloc(n)
    return v


@ext("functools.wraps")
def _wraps(I, a, k):
    return NativeV("wraps", lambda J, b_, kk: b_[0])


EXT["functools.update_wrapper"] = lambda I, a, k: a[0]


@ext("functools.partial")
def _partial(I, a, k):
    f, pre = a[0], list(a[1:])
    return NativeV("partial", lambda J, b_, kk: J.call(f, pre + b_, {**k, **kk}), {"func": f, "args": tuple(pre)})


@ext("functools.reduce")
def _reduce(I, a, k):
    items = iterate(I, a[1])
    if items is None or isinstance(items, SeqV):
        raise Unknown("reduce")
    r = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x], {})
    return r


def memoised(I, f):
    """functools.lru_cache: results kept by arguments (an evicted result is only computed again)"""
    memo = I.new_dict({})

    def run(J, b_, kk):
        key = tuple(hashable(J, x) for x in b_) + tuple((q, hashable(J, kk[q])) for q in sorted(kk))

        def miss():
            v = J.call(f, list(b_), kk)
            store(J, memo, key, v)
            return v
        return stored(J, J.get(memo), lookup(J, J.get(memo), key), miss)

    def clear(J, b_, kk):
        m = J.mut(memo)
        m.d, m.conds = {}, {}
    return NativeV(getattr(f, "name", "memoised"), run, {"cache_clear": NativeV("cache_clear", clear), "__wrapped__": f})


@ext("functools.lru_cache", "functools.cache")
def _lru(I, a, k):
    if a and isinstance(a[0], (FnV, BoundV, NativeV, ClsV)):
        return memoised(I, a[0])
    return NativeV("lru_cache", lambda J, b_, kk: memoised(J, b_[0]))


@ext("functools.cached_property")
def _cached_property(I, a, k):
    return CachedV(a[0])


@ext("jax.jit", "torch.jit.script", "contextlib.contextmanager", "jax.vmap_")
def _ident(I, a, k):
    if a and isinstance(a[0], (FnV, BoundV, NativeV, ClsV)):
        return a[0]
    return NativeV("decorator", lambda J, b_, kk: b_[0])


@ext("torch.no_grad", "torch.inference_mode", "torch.autograd.no_grad")
def _nograd(I, a, k):
    def wrap(f):
        def run(J, b_, kk):
            J.nograd += 1
            try:
                return J.call(f, list(b_), kk)
            finally:
                J.nograd -= 1
        return NativeV("no_grad_fn", run)
    if a and isinstance(a[0], (FnV, BoundV, NativeV)):
        return wrap(a[0])
    return NativeV("no_grad", lambda J, b_, kk: wrap(b_[0]))


EXT["abc.abstractmethod"] = lambda I, a, k: a[0]
EXT["operator.mul"] = lambda I, a, k: I.binop("Mult", a[0], a[1])
EXT["operator.add"] = lambda I, a, k: I.binop("Add", a[0], a[1])
EXT["time.perf_counter"] = EXT["time.process_time"] = EXT["time.time"] = lambda I, a, k: Num(nf.sym(f"clock#{I._tn()}"), "float")
EXT["itertools.chain"] = lambda I, a, k: I.alloc(GenC([x for s in a for x in _its(I, s)]))


def _its(I, v):
    items = iterate(I, v)
    if items is None or isinstance(items, SeqV):
        raise Unknown("iteration")
    return items


EXT["itertools.chain.from_iterable"] = lambda I, a, k: I.alloc(GenC([x for s in _its(I, a[0]) for x in _its(I, s)]))


@ext("itertools.product")
def _product(I, a, k):
    import itertools
    return I.alloc(GenC([tuple(t) for t in itertools.product(*[_its(I, x) for x in a], repeat=k.get("repeat", 1))]))


# scipy / sklearn scalars
for _p, _n in (("scipy.special.gamma", "gamma"), ("scipy.special.erf", "erf")):
    def _mk2(_p, _n):
        def f(I, a, k):
            c = toarr(I, a[0])
            return W(I, ArrC(c.dims, nf.mkfn(_n, c.body), "float", "np"), "np")
        EXT[_p] = f
    _mk2(_p, _n)
EXT["scipy.special.gammaln"] = EXT["jax.scipy.special.gammaln"] = EXT["scipy.special.loggamma"] = lambda I, a, k: FUN["gammaln"](I, "jax" if not a or (is_arr(I, a[0]) and I.get(a[0]).lib == "jax") else "np", a, k)
EXT["scipy.special.kv"] = lambda I, a, k: FUN["kv"](I, "np", a, k)
EXT["scipy.special.softmax"] = lambda I, a, k: FUN["softmax"](I, "np", a, k)
EXT["scipy.special.log_softmax"] = lambda I, a, k: FUN["log_softmax"](I, "np", a, k)
EXT["jax.nn.softmax"] = lambda I, a, k: FUN["softmax"](I, "jax", a, {"axis": -1, **k} if len(a) < 2 else k)


@ext("sklearn.metrics.log_loss")
def _log_loss(I, a, k):
    g = Args(I, a, k, ["y|y_true", "p|y_pred", "eps", "normalize", "sample_weight", "labels"])
    y, p = toarr(I, g.need("y")), toarr(I, g.need("p"))
    if len(y.dims) != 2 or len(p.dims) != 2:
        raise Unknown("log_loss ranks")
    if A.sizeof(y.dims[0]) is not A.sizeof(p.dims[0]):
        raise AbsRaise("ValueError", "inconsistent numbers of samples", I.where())
    # clipping to [eps, 1-eps] is not modelled; log_loss only accepts probabilities
    dims, (yy, pp) = A.broadcast([y, p])
    per = ArrC(dims, -yy * nf.mklog(pp), "float", "np")
    r = A.reduce_(per, None, False, A.r_sum).body
    norm = g.get("normalize", True)
    t = I.truth(norm)
    if t is True:
        r = r * nf.power(A.sizeof(dims[0]), -1)
    elif t is not False:
        raise Unknown("log_loss normalize")
    return Num(r, "float", "np")


# ---------------------------------------------------------------- torch
@ext("torch.nn.Parameter", "torch.nn.parameter.Parameter")
def _param(I, a, k):
    c = toarr(I, a[0], "torch")
    rg = a[1] if len(a) > 1 else k.get("requires_grad", True)
    c = followed(I, c) if rg is True else stopped(I, c)
    return I.new_arr(c.with_(view=None, root=None, lib="torch", tag="param"))


@ext("torch.set_default_dtype", "torch.set_default_tensor_type", "torch.cuda.empty_cache", "torch.set_num_threads")
def _noop(I, a, k):
    return None


EXT["torch.cuda.is_available"] = lambda I, a, k: False
EXT["torch.is_tensor"] = lambda I, a, k: is_arr(I, a[0]) and I.get(a[0]).lib == "torch"
EXT["torch.device"] = lambda I, a, k: ExtV("torch.device.cpu")


def _lossobj(kind):
    def f(I, a, k):
        return I.alloc(ObjC(ExtV("torch.loss"), {"kind": kind, "reduction": k.get("reduction", "mean")}))
    return f


for _n in ("MSELoss", "L1Loss", "BCELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"):
    EXT["torch.nn." + _n] = _lossobj(_n)


def torch_loss(I, kind, red, p, y):
    p, y = toarr(I, p, "torch"), toarr(I, y, "torch")
    L = "torch"
    if kind == "CrossEntropyLoss":
        if len(p.dims) != len(y.dims):
            raise Unknown("class index cross entropy")
        s = A.reduce_(ArrC(p.dims, nf.mkexp(p.body), "float", L), [1 if len(p.dims) > 1 else 0], True, A.r_sum)
        e = A.elementwise(lambda a, b_, c: -b_ * (a - nf.mklog(c)), [p, y, s], "float", L)
        cnt = A.sizeof(e.dims[0]) if len(e.dims) > 1 else ONE
    else:
        dims, (a, b_) = A.broadcast([p, y])
        if kind == "MSELoss":
            body = (a - b_) * (a - b_)
        elif kind == "L1Loss":
            body = nf.mkfn("abs", a - b_)
        elif kind == "BCELoss":
            body = -(b_ * nf.mklog(a) + (ONE - b_) * nf.mklog(ONE - a))
        else:
            raise Unknown(kind)
        e = ArrC(dims, body, "float", L)
        cnt = ONE
        for ax in dims:
            cnt = cnt * A.sizeof(ax)
    if red == "none":
        return W(I, e, L)
    r = A.reduce_(e, None, False, A.r_sum)
    if red == "mean":
        r = r.with_(body=r.body * nf.power(cnt, -1))
    return W(I, r, L)


# ---------------------------------------------------------------- methods
def native(name, fn):
    return NativeV(name, fn)


def attr(I, o, name):
    if isinstance(o, Ref):
        c = I.get(o)
        k = c.kind
        if k == "arr":
            return arr_attr(I, o, name)
        m = METH.get((k, name))
        if m is not None:
            return native(name, lambda J, a, kw: m(J, o, a, kw))
        if k in ("list", "symlist", "condlist", "philist", "dict", "set", "gen"):
            if name in PYATTRS.get({"symlist": "list", "condlist": "list", "philist": "list"}.get(k, k), ()):
                return native(name, lambda J, a, kw: _unk_method(J, o, name))
            raise AbsRaise("AttributeError", f"{k!r} object has no attribute {name!r}", I.where())
    if is_num(o):
        return num_attr(I, o, name)
    if isinstance(o, (str, StrV)):
        return str_attr(I, o, name)
    if isinstance(o, (tuple, RangeV, SeqV)):
        if name in ("index", "count"):
            return native(name, lambda J, a, kw: METH[("list", name)](J, J.new_list(list(o)), a, kw))
        if isinstance(o, tuple) and name == "numel" and I.backend == "torch":
            return native(name, lambda J, a, kw: mknum(_prodnum(o), "int"))
        if isinstance(o, tuple) and name in ("values", "indices") and len(o) == 2:
            return o[0] if name == "values" else o[1]
        if isinstance(o, tuple) and name in ("sign", "logabsdet", "logdet") and len(o) == 2:
            return o[0] if name == "sign" else o[1]
        if name in dir(tuple):
            return native(name, lambda J, a, kw: J.top("tuple." + name))
        raise AbsRaise("AttributeError", f"'tuple' object has no attribute {name!r}", I.where())
    if o is None:
        raise AbsRaise("AttributeError", f"'NoneType' object has no attribute {name!r}", I.where())
    if isinstance(o, Slice):
        return {"start": o.a, "stop": o.b, "step": o.c}[name]
    raise AbsRaise("AttributeError", f"{I.describe(o)} has no attribute {name!r}", I.where())


def _prodnum(o):
    r = nf.ONE
    for x in o:
        r = r * npoly(x)
    return r


PYATTRS = {"list": dir(list), "dict": dir(dict), "set": dir(set), "gen": ("send", "close", "throw", "__next__")}


def _unk_method(I, o, name):
    note_mut(I, o)
    c = I.get(o)
    if c.kind == "list" and name not in ("index", "count", "copy"):
        I.h.put(o.id, SymListC(SeqV(nf.sym(f"top#{I._tn()}"), lambda p: I.top("list item"), "list")))
    if c.kind == "dict" and name in ("popitem", "clear"):
        I.h.put(o.id, DictC({}))
    return I.top("method " + name)


METH = {}


def meth(kind, name):
    def d(f):
        METH[(kind, name)] = f
        return f
    return d


@meth("list", "append")
def _append(I, o, a, k):
    note_mut(I, o)
    I.mut(o).items.append(a[0])


@meth("condlist", "append")
def _cappend(I, o, a, k):
    I.mut(o).items.append(a[0])


@meth("symlist", "append")
def _sappend(I, o, a, k):
    c = I.get(o)
    s, x = c.seq, a[0]
    n = s.n

    def get(p):
        if p is n:
            return x
        return I.top("element of extended list") if not (p.const() is not None and n.const() is not None and p.const() < n.const()) else s.get(p)
    I.h.put(o.id, SymListC(SeqV(n + ONE, get, "list")))


@meth("list", "extend")
def _extend(I, o, a, k):
    items = iterate(I, a[0])
    note_mut(I, o)
    if items is None:
        I.h.put(o.id, SymListC(SeqV(nf.sym(f"top#{I._tn()}"), lambda p: I.top("list item"), "list")))
    elif isinstance(items, SeqV):
        if not I.get(o).items:
            I.h.put(o.id, SymListC(items))
        else:
            raise Unknown("extend by symbolic sequence")
    elif any(isinstance(x, _I().CondItem) for x in items):
        I.h.put(o.id, _I().CondListC(list(I.get(o).items) + items))
    else:
        I.mut(o).items.extend(items)


@meth("condlist", "extend")
def _cextend(I, o, a, k):
    items = iterate(I, a[0])
    if items is None or isinstance(items, SeqV):
        raise Unknown("extend")
    I.mut(o).items.extend(items)


@meth("philist", "append")
def _pappend(I, o, a, k):
    c = I.get(o)
    new = []
    for x in c.cs:
        if not isinstance(x, ListC):
            raise Unknown("append to joined list")
        new.append(ListC(list(x.items) + [a[0]], x.origin))
    I.h.put(o.id, _I()._PhiList(c.gs, new))


@meth("list", "insert")
def _insert(I, o, a, k):
    note_mut(I, o)
    I.mut(o).items.insert(a[0], a[1])


@meth("list", "pop")
def _pop(I, o, a, k):
    note_mut(I, o)
    if not I.get(o).items:
        raise AbsRaise("IndexError", "pop from empty list", I.where())
    return I.mut(o).items.pop(a[0] if a else -1)


@meth("list", "copy")
def _lcopy(I, o, a, k):
    return I.new_list(list(I.get(o).items))


@meth("list", "clear")
def _lclear(I, o, a, k):
    note_mut(I, o)
    I.mut(o).items.clear()


@meth("list", "reverse")
def _lrev(I, o, a, k):
    note_mut(I, o)
    I.mut(o).items.reverse()


@meth("list", "index")
def _lindex(I, o, a, k):
    for i, x in enumerate(I.get(o).items):
        t = I.truth(I.compare("Eq", x, a[0]))
        if t is True:
            return i
        if t is not False:
            raise Unknown("index of symbolic")
    raise AbsRaise("ValueError", "not in list", I.where())


@meth("list", "count")
def _lcount(I, o, a, k):
    r = ZERO
    for x in I.get(o).items:
        t = I.truth(I.compare("Eq", x, a[0]))
        r = r + lift(t) if isinstance(t, bool) else r + t
    return mknum(r, "int")


@meth("set", "add")
def _sadd(I, o, a, k):
    note_mut(I, o)
    m = I.mut(o)
    if a[0] not in m.items:
        m.items.append(a[0])


def _cond(c, x, v):
    return v if x not in c.conds else _I().CondItem(c.conds[x], v)


@meth("dict", "items")
def _items(I, o, a, k):
    c = I.get(o)
    return I.alloc(GenC([_cond(c, x, (x, v)) for x, v in c.d.items()])) if c.conds else I.new_list([(x, v) for x, v in c.d.items()])


@meth("dict", "keys")
def _keys(I, o, a, k):
    c = I.get(o)
    return I.alloc(GenC([_cond(c, x, x) for x in c.d])) if c.conds else I.new_list(list(c.d))


@meth("dict", "values")
def _values(I, o, a, k):
    c = I.get(o)
    return I.alloc(GenC([_cond(c, x, v) for x, v in c.d.items()])) if c.conds else I.new_list(list(c.d.values()))


@meth("dict", "get")
def _dget(I, o, a, k):
    c = I.get(o)
    d = a[1] if len(a) > 1 else k.get("default")
    return stored(I, c, lookup(I, c, hashable(I, a[0])), lambda: d)


@meth("dict", "setdefault")
def _setdefault(I, o, a, k):
    c = I.get(o)
    kk = hashable(I, a[0])
    d = a[1] if len(a) > 1 else None

    def miss():
        note_mut(I, o)
        store(I, o, kk, d)
        return d
    return stored(I, c, lookup(I, c, kk), miss)


@meth("dict", "update")
def _dupdate(I, o, a, k):
    note_mut(I, o)
    src = _dict(I, a, k)
    s = I.get(src)
    m = I.mut(o)
    for q, v in s.d.items():
        if q in s.conds:
            g = s.conds[q]
            if q in m.d:
                m.d[q] = I.merge_vals([g, ONE - g], [v, m.d[q]])
                if q in m.conds:
                    m.conds[q] = g + (ONE - g) * m.conds[q]
            else:
                m.d[q] = v
                m.conds[q] = g
        else:
            m.d[q] = v
            m.conds.pop(q, None)


@meth("dict", "pop")
def _dpop(I, o, a, k):
    note_mut(I, o)
    c = I.get(o)
    kk = hashable(I, a[0])
    if kk not in c.d:
        if len(a) > 1:
            return a[1]
        raise AbsRaise("KeyError", repr(kk), I.where())
    m = I.mut(o)
    v = m.d.pop(kk)
    g = m.conds.pop(kk, None)
    if g is not None:
        if len(a) > 1:
            return I.merge_vals([g, ONE - g], [v, a[1]])
    return v


@meth("dict", "copy")
def _dcopy(I, o, a, k):
    c = I.get(o)
    return I.alloc(DictC(dict(c.d), None, dict(c.conds)))


@meth("dict", "clear")
def _dclear(I, o, a, k):
    note_mut(I, o)
    m = I.mut(o)
    m.d, m.conds = {}, {}


@meth("gen", "__next__")
def _gnext(I, o, a, k):
    return _next(I, [o], {})


# strings
def str_attr(I, o, name):
    if not hasattr("", name):
        raise AbsRaise("AttributeError", f"'str' object has no attribute {name!r}", I.where())

    def f(J, a, k):
        conc = isinstance(o, str) and not k
        args = []
        for x in a:
            if isinstance(x, (str, int)):
                args.append(x)
            elif isinstance(x, tuple) and all(isinstance(y, str) for y in x):
                args.append(x)
            elif isinstance(x, Ref) and name == "join":
                items = iterate(J, x)
                if items is not None and not isinstance(items, SeqV) and all(isinstance(y, str) for y in items):
                    args.append(items)
                else:
                    conc = False
            else:
                conc = False
        if conc:
            r = getattr(o, name)(*args)
            if isinstance(r, list):
                return J.new_list(r)
            return r
        if name in ("startswith", "endswith", "isdigit", "isalpha"):
            return Num(J.topguard("string predicate"), "bool")
        if name in ("split", "rsplit", "index", "find", "count"):
            return J.top("string method")
        return StrV((o, name) + tuple(a))
    return native(name, f)


# scalars
def num_attr(I, o, name):
    L = nlib(o)
    if L == "py":
        if name in ("is_integer", "conjugate", "bit_length", "as_integer_ratio", "hex", "real", "imag", "__float__", "__int__"):
            if name == "real":
                return o
            return native(name, lambda J, a, k: J.top(name))
        raise AbsRaise("AttributeError", f"'{nkind(o)}' object has no attribute {name!r}", I.where())
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name == "T":
        return o
    if name == "dtype":
        return ExtV({"float": "numpy.float64", "int": "numpy.int64", "bool": "numpy.bool_"}[nkind(o)])
    if name in ("item", "tolist", "__float__"):
        return native(name, lambda J, a, k: mknum(npoly(o), nkind(o), "py"))
    if name == "astype":
        return native(name, lambda J, a, k: W(J, cast(toarr(J, o), dtype_of(a[0])), "np"))
    if name == "copy":
        return native(name, lambda J, a, k: o)
    if name in FUN:
        return native(name, lambda J, a, k: FUN[name](J, "np", [o] + list(a), k))
    raise AbsRaise("AttributeError", f"numpy scalar has no attribute {name!r}", I.where())


AMETH = {}


def ameth(*names):
    def d(f):
        for n in names:
            AMETH[n] = f
        return f
    return d


def arr_attr(I, o, name):
    c = I.arr(o)
    L = c.lib
    if name == "shape":
        return tuple(mknum(s, "int") for s in A.shape(c))
    if name == "ndim":
        return len(c.dims)
    if name == "size" and L != "torch":
        r = ONE
        for s in A.shape(c):
            r = r * s
        return mknum(r, "int")
    if name in ("T", "mT"):
        n = len(c.dims)
        perm = list(range(n))[::-1]
        if name == "mT":
            perm = list(range(n - 2)) + [n - 1, n - 2]
        return libfun.view_or(I, o, A.permute(c, perm), "perm", perm)
    if name == "dtype":
        return ExtV({"np": "numpy", "torch": "torch", "jax": "jax.numpy"}[L] + "." + {"float": "float64", "int": "int64", "bool": "bool_"}[c.dt])
    if name == "real":
        return o
    if name == "data":
        return o if I.grad is None else I.new_arr(stopped(I, c).with_(view=None, root=None))
    if name == "grad":
        return None
    if name == "device":
        return ExtV("device")
    if name == "requires_grad":
        return c.tag == "param"
    if name == "at" and L == "jax":
        def gi(J, a, k):
            key = a[0]

            def do(kind):
                def f(K, b_, kk):
                    cc = K.arr(o)
                    keys, _ = conv_key(K, key)
                    v = toarr(K, b_[0], "jax")
                    if kind != "set":
                        cur = A.getitem(cc, keys)
                        op = {"add": lambda p, q: p + q, "multiply": lambda p, q: p * q, "mul": lambda p, q: p * q}[kind]
                        v = A.elementwise(op, [cur, v], cc.dt, "jax")
                    return K.new_arr(A.setitem(cc, keys, v).with_(view=None, root=None))
                return NativeV(kind, f)
            return NativeV("atidx", lambda J, a, k: None, {x: do(x) for x in ("set", "add", "multiply", "mul")})
        return NativeV("at", gi, {"__getitem__": NativeV("at[]", gi)})
    m = AMETH.get(name)
    if m is not None:
        return native(name, lambda J, a, k: m(J, L, o, a, k))
    if name in FUN and "." not in name:
        return native(name, lambda J, a, k: FUN[name](J, L, [o] + list(a), k))
    if name.startswith("__") and name.endswith("__"):
        for op, dn in _I().BINDUNDER.items():
            if dn == name:
                return native(name, lambda J, a, k: J.binop(op, o, a[0]))
        if name == "__len__":
            return native(name, lambda J, a, k: length(J, o))
        if name == "__getitem__":
            return native(name, lambda J, a, k: getitem(J, o, a[0]))
    if name.endswith("_") and not name.startswith("_") and L == "torch":
        base = name[:-1]
        OPS = {"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div"}
        if base in OPS:
            return native(name, lambda J, a, k: J.augop(OPS[base], o, a[0]))
        if base in FUN:
            def inplace(J, a, k):
                r = FUN[base](J, L, [o] + list(a), k)
                J.write_arr(o, J.arr(r))
                return o
            return native(name, inplace)
    known = {"np": "numpy.ndarray", "torch": "torch.Tensor", "jax": "jax array"}[L]
    if name in KNOWN_ATTRS:
        return native(name, lambda J, a, k: J.top(f"{known}.{name}"))
    raise AbsRaise("AttributeError", f"{known} object has no attribute {name!r}", I.where())


KNOWN_ATTRS = {"sort", "partition", "argpartition", "byteswap", "view", "strides", "flags", "base", "itemsize", "nbytes", "backward", "flat", "resize", "ptp",
               "scatter", "gather", "index_select", "masked_select", "unfold", "chunk", "split", "unbind", "is_cuda", "stride", "storage", "type", "register_hook",
               "scatter_", "index_add_", "masked_fill", "masked_fill_", "cumprod", "round", "searchsorted", "setflags", "block_until_ready", "grad_fn", "quantile", "triu", "tril", "addcmul", "lerp", "retain_grad", "is_leaf", "choose", "put", "compress", "dump", "dumps", "tofile", "getfield", "setfield", "is_contiguous", "nonzero_"}


@ameth("tobytes")
def _tobytes(I, L, o, a, k):
    c = I.arr(o)
    return BytesV((L, c.dims, c.body))


@ameth("item")
def _item(I, L, o, a, k):
    c = I.arr(o)
    if a:
        return getitem(I, o, tuple(a) if len(a) > 1 else a[0])
    if any(ax for ax in c.dims):
        raise AbsRaise("ValueError", "can only convert an array of size 1 to a Python scalar", I.where())
    if L == "torch":
        c = stopped(I, c)
    return mknum(A.at(c, [[] for _ in c.dims]), c.dt if c.dt in ("int", "bool") else "float", "py")


@ameth("tolist")
def _tolist(I, L, o, a, k):
    c = I.arr(o)
    if not c.dims:
        return _item(I, L, o, a, k)
    items = iterate(I, o)

    def conv(v):
        if is_arr(I, v):
            return _tolist(I, L, v, (), {})
        return mknum(npoly(v), nkind(v), "py")
    if isinstance(items, SeqV):
        return I.alloc(SymListC(SeqV(items.n, lambda p: conv(items.get(p)), "list")))
    return I.new_list([conv(x) for x in items])


@ameth("astype")
def _astype(I, L, o, a, k):
    return I.new_arr(cast(I.arr(o), dtype_of(a[0] if a else k.get("dtype"))).with_(view=None, root=None))


@ameth("to", "type", "type_as")
def _to(I, L, o, a, k):
    dt = None
    for x in list(a) + list(k.values()):
        dt = dt or dtype_of(x)
    c = I.arr(o)
    if dt is None or dt == c.dt:
        return o
    return I.new_arr(cast(c, dt).with_(view=None, root=None))


for _n, _d in (("float", "float"), ("double", "float"), ("half", "float"), ("long", "int"), ("int", "int"), ("bool", "bool")):
    AMETH[_n] = (lambda d: lambda I, L, o, a, k: _to(I, L, o, [ExtV("torch." + d)], {}))(_d)


@ameth("cpu", "cuda", "contiguous")
def _same(I, L, o, a, k):
    return o


@ameth("detach", "detach_")
def _detach(I, L, o, a, k):
    return o if I.grad is None else I.new_arr(stopped(I, I.arr(o)).with_(view=None, root=None))


@ameth("requires_grad_")
def _requires(I, L, o, a, k):
    if I.grad is not None and (a[0] if a else k.get("requires_grad", True)) is not True:
        I.write_arr(o, stopped(I, I.arr(o)))
    return o


@ameth("numpy", "__array__")
def _numpy(I, L, o, a, k):
    c = I.arr(o)
    if L == "np":
        return o
    if I.grad is not None:
        return I.new_arr(stopped(I, c).with_(view=None, root=None, lib="np"))
    r = mkview(I, o, "reshape", [A.sizeof(ax) for ax in c.dims], c)
    I.mut(r).lib = "np"
    return r


@ameth("fill", "fill_")
def _fill(I, L, o, a, k):
    if L == "jax":
        raise AbsRaise("TypeError", "JAX arrays are immutable", I.where())
    c = I.arr(o)
    I.write_arr(o, ArrC(c.dims, scal(I, a[0]), c.dt, L))
    return None if L == "np" else o


@ameth("sort")
def _sort_method(I, L, o, a, k):
    if L != "np":
        return FUN["sort"](I, L, [o] + list(a), k)
    r = FUN["sort"](I, L, [o] + list(a), k)
    I.write_arr(o, I.arr(r))
    return None


def _inplace_unknown(name):
    def f(I, L, o, a, k):
        raise Unknown("in-place " + name)
    return f


for _n in ("partition", "put", "resize", "setfield", "byteswap", "scatter_", "index_add_", "masked_fill_"):
    ameth(_n)(_inplace_unknown(_n))


@ameth("zero_")
def _zero_(I, L, o, a, k):
    return _fill(I, L, o, [0], {})


@ameth("copy_")
def _copy_(I, L, o, a, k):
    c = I.arr(o)
    I.write_arr(o, A.broadcast_to(toarr(I, a[0], L), c.dims))
    return o


@ameth("fill_diagonal_")
def _filldiag_(I, L, o, a, k):
    _filld(I, L, o, a[0])
    return o


def _filld(I, L, o, v):
    c = I.arr(o)
    if len(c.dims) != 2:
        raise Unknown("fill_diagonal")
    f = A.free_idx(c.dims)
    g = nf.mkeq(A.flat(c.dims[0], f[0]), A.flat(c.dims[1], f[1]))
    va = toarr(I, v, L)
    if va.dims:
        if len(va.dims) != 1 or va.dims[0] != c.dims[0]:
            raise Unknown("fill_diagonal")
        b_ = A.at(va, [f[0]])
    else:
        b_ = va.body
    I.write_arr(o, ArrC(c.dims, nf.mkphi(g, b_, c.body), c.dt, L))


EXT["numpy.fill_diagonal"] = lambda I, a, k: _filld(I, "np", a[0], a[1])


@ameth("reshape", "view")
def _mreshape(I, L, o, a, k):
    if "shape" in k or "newshape" in k:
        a = [k.get("shape", k.get("newshape"))]
    if a and not is_num(a[0]) and isinstance(a[0], ExtV):
        return I.top("reinterpretation")
    return FUN["reshape"](I, L, [o, a[0] if len(a) == 1 else tuple(a)], {q: v for q, v in k.items() if q == "order"})


@ameth("transpose", "permute")
def _mtrans(I, L, o, a, k):
    return FUN["transpose"](I, L, [o] + ([tuple(a)] if len(a) > 1 and L != "torch" else list(a)), k)


@ameth("permute")
def _mperm(I, L, o, a, k):
    return FUN["transpose"](I, "np" if False else L, [o, tuple(a) if len(a) > 1 else a[0]], {})


@ameth("expand", "broadcast_to")
def _mexpand(I, L, o, a, k):
    c = I.arr(o)
    s = shape_of(I, a)
    n = len(s)
    dims = []
    for i, x in enumerate(s):
        if x is None:
            dims.append(c.dims[i - (n - len(c.dims))])
        else:
            dims.append(A.axis(x))
    r = A.broadcast_to(c, tuple(dims))
    return I.new_arr(r.with_(view=None, root=None))


@ameth("repeat")
def _mrepeat(I, L, o, a, k):
    if L == "torch":
        return FUN["tile"](I, L, [o, tuple(a) if len(a) > 1 or is_num(a[0]) else a[0]], {})
    return FUN["repeat"](I, L, [o] + list(a), k)


@ameth("size")
def _msize(I, L, o, a, k):
    s = arr_attr(I, o, "shape")
    return seq_index(I, list(s), a[0]) if a else s


@ameth("dim")
def _mdim(I, L, o, a, k):
    return len(I.arr(o).dims)


@ameth("flatten")
def _mflat(I, L, o, a, k):
    r = FUN["reshape"](I, L, [o, -1], {})
    return I.new_arr(I.arr(r).with_(view=None, root=None)) if L == "np" else r


@ameth("t")
def _mt(I, L, o, a, k):
    return arr_attr(I, o, "T")


@ameth("square")
def _msq(I, L, o, a, k):
    return FUN["square"](I, L, [o], {})


# ---------------------------------------------------------------- external objects
def ext_method(I, o, e, name):
    """attribute of an instance of an analysed class with an external base"""
    c = I.get(o)
    if name == "__call__":
        return I.getattr(o, "forward")
    if name in ("train", "eval", "double", "float", "to", "zero_grad", "requires_grad_", "register_buffer", "register_parameter", "cpu", "cuda"):
        def f(J, a, k):
            if name in ("register_buffer", "register_parameter"):
                J.mut(o).attrs[a[0]] = a[1]
                return None
            return o
        return native(name, f)
    if name in ("parameters", "named_parameters", "modules", "children", "state_dict", "training"):
        return native(name, lambda J, a, k: J.top("module " + name))
    if name == "define_bool_state" or name == "define_enum_state" or name == "update":
        return native(name, lambda J, a, k: None)
    if e.path.startswith("builtins."):
        raise AbsRaise("AttributeError", name, I.where())
    raise AbsRaise("AttributeError", f"{I.describe(o)} has no attribute {name!r}", I.where())


OBJ = {}   # class path -> fn(I, o, c, name)


def obj_ext_attr(I, o, c, name):
    f = OBJ.get(c.cls.path if isinstance(c.cls, ExtV) else None)
    if f is not None:
        return f(I, o, c, name)
    if name in c.attrs:
        return c.attrs[name]
    return I.top(f"attribute {name} of external object")


def objmodel(path):
    def d(f):
        OBJ[path] = f
        return f
    return d


@objmodel("torch.loss")
def _tl(I, o, c, name):
    if name in ("forward", "__call__"):
        return native(name, lambda J, a, k: torch_loss(J, c.attrs["kind"], c.attrs["reduction"], a[0] if a else k["input"], a[1] if len(a) > 1 else k["target"]))
    return c.attrs.get(name, I.top("loss attr"))


@objmodel("numpy.random.Generator")
def _gen(I, o, c, name):
    f = FUN.get("random." + name) or FUN.get(name)
    if f is None:
        return native(name, lambda J, a, k: J.top("random generator"))
    return native(name, lambda J, a, k: f(J, "np", a, k))


# nearest neighbours
@ext("sklearn.neighbors.NearestNeighbors")
def _NN(I, a, k):
    kw = dict(k)
    if a:
        kw["n_neighbors"] = a[0]
    return I.alloc(ObjC(ExtV("sklearn.NN"), {"kw": kw}))


def nn_query(I, kind, static, train, q, k, lam_extra=()):
    """(index array, distance array) for query rows q against train"""
    t = [A.temps_for(ax) for ax in train.dims]
    tl = nf.mklam(tuple(x for r in t for x in r), A.at(train, [[atom(x) for x in r] for r in t]))
    kax = A.axis(k)
    dims = (q.dims[0], kax)
    f = A.free_idx(dims)
    u = [A.temps_for(ax) for ax in q.dims[1:]]
    ql = nf.mklam(tuple(x for r in u for x in r), A.at(q, [f[0]] + [[atom(x) for x in r] for r in u]))
    pos = A.flat(kax, f[1])
    mkb = lambda n: nf.mkop(n, (kind,) + static, (tl, ql), (pos, k))
    return (ArrC(dims, mkb("nn_index"), "int", "np"), ArrC(dims, mkb("nn_dist"), "float", "np"))


@objmodel("sklearn.NN")
def _nnobj(I, o, c, name):
    kw = c.attrs["kw"]
    if name == "fit":
        def f(J, a, k):
            J.mut(o).attrs["train"] = toarr(J, a[0])
            return o
        return native(name, f)
    if name == "kneighbors":
        def f(J, a, k):
            g = Args(J, a, k, ["X", "n_neighbors", "return_distance"])
            cc = J.get(o)
            tr = cc.attrs["train"]
            n = g.get("n_neighbors")
            n = npoly(n) if n is not None else npoly(kw.get("n_neighbors", 5))
            st = tuple(sorted((x, nf.show(npoly(v)) if is_num(v) else str(v)) for x, v in kw.items() if x not in ("n_neighbors", "n_jobs", "leaf_size", "algorithm")))
            st = tuple(x for x in st if x not in (("metric", "minkowski"), ("p", "2")))
            if g.get("X") is None:
                ind, dist = nn_query(J, "sk_self", st, tr, tr, n)
            else:
                ind, dist = nn_query(J, "sk", st, tr, toarr(J, g["X"]), n)
            J.event("kneighbors", kw=dict(kw))
            if J.truth(g.get("return_distance", True)) is False:
                return J.new_arr(ind)
            return (J.new_arr(dist), J.new_arr(ind))
        return native(name, f)
    dflt = {"metric": "minkowski", "p": 2, "metric_params": None, "radius": 1.0, "algorithm": "auto", "leaf_size": 30, "n_jobs": None, "n_neighbors": 5}
    if name in dflt:
        return kw.get(name, dflt[name])
    return native(name, lambda J, a, k: J.top("sklearn " + name))


@ext("hnswlib.Index")
def _hnsw(I, a, k):
    return I.alloc(ObjC(ExtV("hnswlib.Index"), {"kw": dict(k, **({"space": a[0]} if a else {}))}))


@objmodel("hnswlib.Index")
def _hnswobj(I, o, c, name):
    if name == "init_index":
        def f(J, a, k):
            g = Args(J, a, k, ["max_elements", "M", "ef_construction", "random_seed", "allow_replace_deleted"])
            J.mut(o).attrs["init"] = dict(g.v)
        return native(name, f)
    if name == "add_items":
        def f(J, a, k):
            J.mut(o).attrs["train"] = toarr(J, a[0])
            if len(a) > 1 or "ids" in k:
                J.mut(o).attrs["ids"] = a[1] if len(a) > 1 else k["ids"]
        return native(name, f)
    if name == "knn_query":
        def f(J, a, k):
            g = Args(J, a, k, ["data", "k", "num_threads"])
            cc = J.get(o)
            sp = cc.attrs["kw"].get("space", "?")
            J.event("knn_query", kw=dict(cc.attrs.get("kw")), init=dict(cc.attrs.get("init", {})))
            ind, dist = nn_query(J, "hnsw", (str(sp),), cc.attrs["train"], toarr(J, g["data"]), npoly(g.get("k", 1)))
            return (J.new_arr(ind), J.new_arr(dist))
        return native(name, f)
    return native(name, lambda J, a, k: None)


# scipy / bayes_opt optimisers: scenario drivers read the 'optimizer' events
@ext("scipy.optimize.minimize")
def _minimize(I, a, k):
    g = Args(I, a, k, ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"])
    x0 = toarr(I, g.need("x0"))
    bnds = g.get("bounds")
    I.event("minimize", x0=x0, bounds=toarr(I, bnds) if bnds is not None and not isinstance(bnds, TopV) else None, method=g.get("method"),
            kwargs={q: v for q, v in g.v.items() if q not in ("fun", "x0", "bounds", "method")})
    I.rng = getattr(I, "rng", 0) + 1
    f = [x for r in A.free_idx(x0.dims) for x in r]
    trial = I.new_arr(ArrC(x0.dims, nf.mkel("trial", f), "float", "np"))
    val = I.call(g.need("fun"), [trial], {})
    I.event("objective", value=val)
    vals = getattr(I, "opt_values", None)
    if vals:
        res = I.new_arr(toarr(I, I.new_list([Num(nf.const(v), "float") for v in vals])))
    else:
        res = I.new_arr(ArrC(x0.dims, nf.mkel("opt", f), "float", "np"))
    return I.alloc(ObjC(ExtV("scipy.OptimizeResult"), {"x": res, "fun": I.top("fun"), "success": I.top("success"), "status": I.top("status"), "message": I.top("m"), "nit": I.top("nit"), "nfev": I.top("nfev")}))


@ext("bayes_opt.BayesianOptimization")
def _bayes(I, a, k):
    g = Args(I, a, k, ["f", "pbounds", "acquisition_function", "constraint", "random_state", "verbose", "bounds_transformer", "allow_duplicate_points"])
    d = I.get(g.need("pbounds"))
    pb = {}
    for q, v in d.d.items():
        it = iterate(I, v)
        pb[q] = tuple(it[:2]) if isinstance(it, list) else None
    trial = {q: Num(nf.sym(f"trial[{q}]"), "float") for q in pb}
    o = I.alloc(ObjC(ExtV("bayes_opt.BO"), {"names": tuple(pb)}))
    I.event("bayes_init", pbounds=pb, conds=dict(d.conds), kwargs={q: v for q, v in g.v.items() if q not in ("f", "pbounds")})
    I.mut(o).attrs["_space"] = I.alloc(ObjC(ExtV("bayes_opt.TargetSpace"), {"target_func": g.need("f")}))
    I.mut(o).attrs["trial"] = trial
    I.mut(o).attrs["conds"] = dict(d.conds)
    return o


@objmodel("bayes_opt.BO")
def _bo(I, o, c, name):
    if name == "probe":
        def f(J, a, k):
            p = a[0] if a else k.get("params")
            d = dict(J.get(p).d) if isinstance(p, Ref) and J.get(p).kind == "dict" else J.top("probe")
            J.event("probe", params=d, kwargs=k)
        return native(name, f)
    if name == "maximize":
        def f(J, a, k):
            cc = J.get(o)
            J.event("maximize", kwargs=dict(k), args=a)
            if cc.attrs["conds"]:
                raise Unknown("conditional parameter set")
            J.mut(o).attrs["runs"] = J.bo_runs = getattr(J, "bo_runs", 0) + 1
            v = J.call(J.get(cc.attrs["_space"]).attrs["target_func"], [], dict(cc.attrs["trial"]))
            J.event("objective", value=v)
        return native(name, f)
    if name == "max":
        vals = getattr(I, "opt_values", None)
        if isinstance(vals, list):
            vals = vals[c.attrs.get("runs", 0) - 1]
        d = {q: Num(nf.const(vals[q]) if vals else nf.sym(f"opt[{q}]"), "float") for q in c.attrs["names"]}
        return I.new_dict({"target": Num(nf.sym("opt_target"), "float"), "params": I.new_dict(d)})
    if name in ("_space", "space"):
        return c.attrs["_space"]
    if name == "res":
        return I.top("optimizer.res")
    return native(name, lambda J, a, k: J.top("bayes " + name))


# ---------------------------------------------------------------- MPI
@objmodel("mpi.comm")
def _comm(I, o, c, name):
    rank, size = I.world if I.world else (0, 1)
    if name.lower() in ("get_rank", "get_size", "rank", "size"):
        v = rank if "rank" in name.lower() else size
        v = mknum(v, "int") if isinstance(v, Poly) else v
        return v if name in ("rank", "size") else native(name, lambda J, a, k: v)

    def f(J, a, k):
        J.event("comm", op=name, args=list(a), kwargs=dict(k))
        return comm_op(J, name, a, k, rank, size)
    return native(name, f)


def comm_op(I, name, a, k, rank, size):
    if name.lower() == "allreduce":
        op = a[1] if len(a) > 1 else k.get("op")
        opn = op.path.rsplit(".", 1)[-1] if isinstance(op, ExtV) else "SUM"
        v = a[0]
        if isinstance(v, TopV):
            return v
        c = toarr(I, v)
        r = c.with_(body=nf.mkop("allreduce", (opn,), (nf.mklam((), c.body),), ()))
        return W(I, r, c.lib) if not is_num(v) else mknum(r.body, nkind(v), nlib(v))
    if name.lower() == "bcast":
        return mpi_known(I, "bcast", a[0])
    if name.lower() in ("allgather", "gather"):
        if isinstance(rank, int) and isinstance(a[0], (Ref, TopV, tuple)):
            v = I.resolve(a[0])
            c = I.get(v) if isinstance(v, Ref) else None
            I.gathers.append(I.arr(v).with_(view=None, root=None) if isinstance(c, ArrC) else v)
            if I.gathered is None:
                return TopV("gathered from the ranks")
            parts = I.gathered.pop(0)
            return I.new_list([I.new_arr(p) if isinstance(p, ArrC) else p for p in parts])
        c = toarr(I, a[0])
        n = npoly(size)
        nm = "gathered"

        def get(p):
            return I.new_arr(c.with_(body=nf.mkop("ranked", (), (nf.mklam((), c.body),), (p,)), view=None, root=None))
        return I.alloc(SymListC(SeqV(n, get, "gathered"))) if c.dims or True else None
    if name.lower() == "send" and isinstance(rank, int):
        dest = a[1] if len(a) > 1 else k.get("dest")
        dest = dest if isinstance(dest, int) else npoly(dest).const()
        v = I.resolve(a[0])
        c = I.get(v) if isinstance(v, Ref) else None
        I.outbox.append((dest, I.arr(v).with_(view=None, root=None) if isinstance(c, ArrC) else v))
        return None
    if name.lower() == "recv":
        if I.inbox:
            v = I.inbox.pop(0)
            return I.new_arr(v) if isinstance(v, ArrC) else v
        if I.inbox is not None:
            raise AbsRaise("Deadlock", "receives a message nobody sends")
        return TopV("received from rank 0")
    if name.lower() == "scatter":
        return TopV("scattered from root")
    return None


def mpi_known(I, what, v):
    if isinstance(v, TopV):
        return v
    c = toarr(I, v) if not isinstance(v, (tuple, str)) and v is not None else None
    if c is None:
        return v
    def wrap(a):
        if a.kind in ("el", "op", "bool"):
            if a.kind == "op" and a.args[0] in (what, "allreduce"):
                return nf.atom(a)
            return nf.mkop(what, (), (nf.mklam((), nf.atom(a)),), ())
        return nf.atom(a) if a.kind in ("sym", "dim", "ix", "num") else None
    r = c.with_(body=nf.map_atoms(c.body, wrap), view=None, root=None)
    return W(I, r, c.lib)


# ---------------------------------------------------------------- config stub
def stub_module(I, name):
    if name == "MuyGPyS._src.config":
        m = ModV(name, None)
        st = I.alloc(ObjC(ClsV("MuyGPySState", [], {}, None), {
            "backend": I.backend, "ftype": I.ftype, "jax_enabled": I.backend == "jax" or "jax" in I.enabled,
            "torch_enabled": I.backend == "torch" or "torch" in I.enabled, "hnswlib_enabled": "hnswlib" in I.enabled,
            "gpu_enabled": False, "mpi_enabled": I.backend == "mpi" or "mpi4py" in I.enabled, "already_configured_with_absl": False,
            "low_precision": NativeV("low_precision", lambda J, a, k: J.ftype == "32")}))
        comm = I.alloc(ObjC(ExtV("mpi.comm"), {})) if I.backend == "mpi" or I.world else None
        mp = I.alloc(ObjC(ClsV("MPIState", [], {}, None), {"comm_world": comm, "_comm_world": comm, "set_comm": NativeV("set_comm", lambda J, a, k: None)}))
        cfg = I.alloc(ObjC(ClsV("MuyGPySConfig", [], {}, None), {
            "state": st, "mpi_state": mp, "update": NativeV("update", lambda J, a, k: None),
            "parse_flags_with_absl": NativeV("parse", lambda J, a, k: None),
            "muygpys_backend": I.backend, "muygpys_ftype": I.ftype}))
        m.ns.update({"config": cfg, "jax_config": None if I.backend != "jax" else ExtV("jax.config"), "MPI": None if I.backend != "mpi" else ExtV("mpi4py.MPI"), "__name__": name})
        return m
    return None


def _finfo(I, a, k):
    nf.POSITIVE_SYMS.update(("float_eps", "float_tiny", "float_max"))
    m = {q: Num(nf.sym("float_" + r), "float") for q, r in (("eps", "eps"), ("tiny", "tiny"), ("max", "max"), ("smallest_normal", "tiny"))}
    m["min"] = Num(-nf.sym("float_max"), "float")
    return NativeV("finfo", lambda *_: None, m)


for _p in ("numpy.finfo", "jax.numpy.finfo", "torch.finfo"):
    EXT[_p] = _finfo
EXT["tensorflow_probability.substrates.jax.math.bessel_kve"] = lambda I, a, k: FUN["kve"](I, "jax", a, k)
EXT["scipy.special.kve"] = EXT["scipy.special.kv"] and (lambda I, a, k: FUN["kve"](I, "np", a, k))
