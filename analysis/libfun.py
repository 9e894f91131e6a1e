"""Array functions of numpy / torch / jax.numpy as operations on normal forms."""
from fractions import Fraction
from . import nf, arr as A
from .nf import ONE, ZERO, const, atom, subst, Poly, lift
from .values import *
from .arr import Unknown
from .libcore import *
from .libcore import is_num, npoly, nkind, nlib, _I
from . import libops
from .libops import tobool, floordiv, modp

FUN = {}      # name -> fn(I, L, args, kwargs)


def reg(*names):
    def d(f):
        for n in names:
            FUN[n] = f
        return f
    return d


class Args:
    """positional/keyword access with per-call bookkeeping"""

    def __init__(self, I, a, k, names):
        self.I = I
        self.v = {}
        for n, x in zip(names, a):
            self.v[n.split("|")[0]] = x
        if len(a) > len(names):
            raise AbsRaise("TypeError", f"too many positional arguments ({len(a)})", I.where())
        alias = {al: n.split("|")[0] for n in names for al in n.split("|")}
        for q, x in k.items():
            if q not in alias:
                if q in ("device", "requires_grad", "order", "copy", "out", "layout", "generator", "dtype", "precision", "optimize", "casting", "pin_memory", "method"):
                    if q == "out" and x is not None:
                        raise Unknown("out= argument")
                    self.v.setdefault(q, x)
                    continue
                raise AbsRaise("TypeError", f"unexpected keyword argument {q!r}", I.where())
            self.v[alias[q]] = x

    def __getitem__(self, n):
        return self.v[n]

    def get(self, n, d=None):
        return self.v.get(n, d)

    def __contains__(self, n):
        return n in self.v

    def need(self, n):
        if n not in self.v:
            raise AbsRaise("TypeError", f"missing required argument {n!r}", self.I.where())
        return self.v[n]


def axes_of(I, v):
    if isinstance(v, PhiV):
        v = I.resolve(v)
    if v is None:
        return None
    if isinstance(v, Num) and v.p.const() is not None:
        v = int(v.p.const())
    if isinstance(v, int):
        return [v]
    items = iterate(I, v)
    if items is None or isinstance(items, SeqV) or not all(isinstance(x, int) for x in items):
        raise Unknown("symbolic axis")
    return items


def truthy(I, v):
    t = I.truth(v)
    if not isinstance(t, bool):
        raise Unknown("symbolic flag")
    return t


# ------------------------------------------------------------- elementwise
def _ew1(name, fn, keep=None):
    def f(I, L, a, k):
        g = Args(I, a, k, ["x|a|input"])
        c = toarr(I, g.need("x"), L)
        if I.grad is not None:
            if name in ("sqrt", "rsqrt", "log", "reciprocal"):
                I.roots.append((name, c, I.where()))
            if L == "np":
                c = stopped(I, c)
        return W(I, ArrC(c.dims, fn(c), keep(c) if keep else "float", L), L)
    FUN[name] = f


for _n, _f in dict(
    exp=lambda c: nf.mkfn("exp", c.body), log=lambda c: nf.mkfn("log", c.body), sqrt=lambda c: nf.mkfn("sqrt", c.body),
    sin=lambda c: nf.mkfn("sin", c.body), cos=lambda c: nf.mkfn("cos", c.body), tan=lambda c: nf.mkfn("tan", c.body),
    tanh=lambda c: nf.mkfn("tanh", c.body), sigmoid=lambda c: nf.power(ONE + nf.mkexp(-c.body), -1),
    expm1=lambda c: nf.mkexp(c.body) - ONE, log1p=lambda c: nf.mklog(ONE + c.body),
    log2=lambda c: nf.mklog(c.body) * nf.power(nf.mklog(const(2)), -1),
    log10=lambda c: nf.mklog(c.body) * nf.power(nf.mklog(const(10)), -1),
    reciprocal=lambda c: nf.power(c.body, -1), rsqrt=lambda c: nf.power(c.body, Fraction(-1, 2)),
    gammaln=lambda c: nf.mklog(nf.mkfn("gamma", c.body)), lgamma=lambda c: nf.mklog(nf.mkfn("gamma", c.body)),
    erf=lambda c: nf.mkfn("erf", c.body),
).items():
    _ew1(_n, _f)
for _n, _f in dict(abs=lambda c: nf.mkfn("abs", c.body), absolute=lambda c: nf.mkfn("abs", c.body), fabs=lambda c: nf.mkfn("abs", c.body),
                   square=lambda c: c.body * c.body, negative=lambda c: -c.body, neg=lambda c: -c.body, positive=lambda c: c.body,
                   sign=lambda c: nf.mkgt(c.body) - nf.mkgt(-c.body), floor=lambda c: nf.mkfn("floor", c.body),
                   ceil=lambda c: -nf.mkfn("floor", -c.body), rint=lambda c: nf.mkfn("rint", c.body)).items():
    _ew1(_n, _f, keep=lambda c: c.dt)
for _n, _f in dict(isnan=lambda c: nf.mkbool("isnan", (c.body,)) if c.dt == "float" and c.body.const() is None else ZERO,
                   isinf=lambda c: nf.mkbool("isinf", (c.body,)) if c.dt == "float" and c.body.const() is None else ZERO,
                   isfinite=lambda c: nf.mkbool("isfinite", (c.body,)) if c.dt == "float" and c.body.const() is None else ONE,
                   logical_not=lambda c: ONE - tobool(c.body, c.dt)).items():
    _ew1(_n, _f, keep=lambda c: "bool")


def _inv(I, L, a, k):
    return I.unop("Invert", a[0]) if not is_num(a[0]) or nlib(a[0]) != "py" else I.unop("Invert", Num(npoly(a[0]), nkind(a[0]), "np"))


FUN["invert"] = FUN["bitwise_not"] = _inv


def _op2(name, op):
    def f(I, L, a, k):
        g = Args(I, a, k, ["x|x1|input|a", "y|x2|other|b"])
        if "rounding_mode" in g and g.get("rounding_mode") is not None:
            raise Unknown("rounding_mode")
        x, y = toarr(I, g.need("x"), L), toarr(I, g.need("y"), L)
        dims, (p, q) = A.broadcast([x, y])
        r, kd = libops.scalar_op(op, p, q, x.dt, y.dt, True)
        return W(I, ArrC(dims, r, kd, L), L)
    FUN[name] = f


for _n, _o in dict(add="Add", subtract="Sub", sub="Sub", multiply="Mult", mul="Mult", divide="Div", div="Div", true_divide="Div",
                   floor_divide="FloorDiv", mod="Mod", remainder="Mod", power="Pow", pow="Pow", float_power="Pow").items():
    _op2(_n, _o)


def _cmp2(name, op):
    def f(I, L, a, k):
        g = Args(I, a, k, ["x|x1|input", "y|x2|other"])
        x, y = toarr(I, g.need("x"), L), toarr(I, g.need("y"), L)
        dims, (p, q) = A.broadcast([x, y])
        return W(I, ArrC(dims, libops.cmp_poly(op, p, q), "bool", L), L)
    FUN[name] = f


for _n, _o in dict(equal="Eq", eq="Eq", not_equal="NotEq", ne="NotEq", less="Lt", lt="Lt", less_equal="LtE", le="LtE", greater="Gt",
                   gt="Gt", greater_equal="GtE", ge="GtE").items():
    _cmp2(_n, _o)


def _fn2(name, fn, dt=None):
    def f(I, L, a, k):
        g = Args(I, a, k, ["x|x1|input", "y|x2|other"])
        x, y = toarr(I, g.need("x"), L), toarr(I, g.need("y"), L)
        dims, (p, q) = A.broadcast([x, y])
        return W(I, ArrC(dims, fn(p, q, x, y), dt or A.promote_dt(x.dt, y.dt), L), L)
    FUN[name] = f


_fn2("maximum", lambda p, q, x, y: A.minmax("max", p, q))
_fn2("fmax", lambda p, q, x, y: A.minmax("max", p, q))
_fn2("minimum", lambda p, q, x, y: A.minmax("min", p, q))
_fn2("fmin", lambda p, q, x, y: A.minmax("min", p, q))
_fn2("logical_and", lambda p, q, x, y: tobool(p, x.dt) * tobool(q, y.dt), "bool")
_fn2("logical_or", lambda p, q, x, y: tobool(p, x.dt) + tobool(q, y.dt) - tobool(p, x.dt) * tobool(q, y.dt), "bool")
_fn2("logical_xor", lambda p, q, x, y: tobool(p, x.dt) + tobool(q, y.dt) - const(2) * tobool(p, x.dt) * tobool(q, y.dt), "bool")
_fn2("bitwise_and", lambda p, q, x, y: p * q if x.dt == y.dt == "bool" else nf.mkfn("BitAnd", p, q))
_fn2("bitwise_or", lambda p, q, x, y: p + q - p * q if x.dt == y.dt == "bool" else nf.mkfn("BitOr", p, q))
_fn2("hypot", lambda p, q, x, y: nf.mkfn("sqrt", p * p + q * q), "float")
_fn2("arctan2", lambda p, q, x, y: nf.mkfn("arctan2", p, q), "float")
_fn2("kv", lambda p, q, x, y: nf.mkfn("kv", p, q), "float")
_fn2("kve", lambda p, q, x, y: nf.mkfn("kv", p, q) * nf.mkexp(q), "float")


def iscl(p, q):
    if p is q:
        return ONE
    d = p - q
    c = d.const()
    if c is not None and p.const() is not None:
        return ONE if abs(c) <= Fraction(1, 10**8) + Fraction(1, 10**5) * abs(q.const()) else ZERO
    n = d
    lead = min(n.terms, key=lambda m: m.id)
    if n.terms[lead] < 0:
        n = -n
    return nf.mkbool("isclose", (n,))


@reg("isclose")
def _isclose(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "y|b|other", "rtol", "atol", "equal_nan"])
    x, y = toarr(I, g.need("x"), L), toarr(I, g.need("y"), L)
    dims, (p, q) = A.broadcast([x, y])
    return W(I, ArrC(dims, iscl(p, q), "bool", L), L)


@reg("allclose")
def _allclose(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "y|b|other", "rtol", "atol", "equal_nan"])
    x, y = toarr(I, g.need("x"), L), toarr(I, g.need("y"), L)
    dims, (p, q) = A.broadcast([x, y])
    r = A.reduce_(ArrC(dims, iscl(p, q), "bool", L), None, False, A.r_all)
    return mknum(r.body, "bool", "py")


@reg("array_equal")
def _array_equal(I, L, a, k):
    x, y = toarr(I, a[0], L), toarr(I, a[1], L)
    if len(x.dims) != len(y.dims):
        return False
    dims, (p, q) = A.broadcast([x, y])
    r = A.reduce_(ArrC(dims, nf.mkeq(p, q), "bool", L), None, False, A.r_all)
    return mknum(r.body, "bool", "py")


@reg("where")
def _where(I, L, a, k):
    if len(a) == 1:
        c = toarr(I, a[0], L)
        c = cast(c, "bool")
        return tuple(I.new_arr(x) for x in A._mask_to_ints(c))
    c, x, y = (toarr(I, v, L) for v in a)
    dims, (g, p, q) = A.broadcast([c, x, y])
    return W(I, ArrC(dims, nf.mkphi(tobool(g, c.dt), p, q), A.promote_dt(x.dt, y.dt), L), L)


@reg("nonzero", "flatnonzero", "argwhere")
def _nonzero(I, L, a, k):
    return _where(I, L, a, k)


@reg("clip", "clamp")
def _clip(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "lo|a_min|min", "hi|a_max|max"])
    x = toarr(I, g.need("x"), L)
    lo, hi = g.get("lo"), g.get("hi")
    if getattr(I, "interior", False):
        return W(I, x, L)       # the scenario assumes values inside the clipping range
    arrs = [x] + [toarr(I, v, L) for v in (lo, hi) if v is not None]
    dims, bs = A.broadcast(arrs)
    p = bs[0]
    i = 1
    dt = x.dt
    if lo is not None:
        p = A.minmax("max", p, bs[i])
        dt = A.promote_dt(dt, arrs[i].dt)
        i += 1
    if hi is not None:
        p = A.minmax("min", p, bs[i])
        dt = A.promote_dt(dt, arrs[i].dt)
    return W(I, ArrC(dims, p, dt, L), L)


@reg("nan_to_num")
def _n2n(I, L, a, k):
    raise Unknown("nan_to_num")


@reg("softmax")
def _softmax(I, L, a, k):
    g = Args(I, a, k, ["x|input", "axis|dim"])
    c = toarr(I, g.need("x"), L)
    ax = axes_of(I, g.get("axis"))
    e = ArrC(c.dims, nf.mkexp(c.body), "float", L)
    s = A.reduce_(e, ax, True, A.r_sum)
    return W(I, A.elementwise(lambda p, q: p * nf.power(q, -1), [e, s], "float", L), L)


@reg("log_softmax")
def _log_softmax(I, L, a, k):
    c = toarr(I, FUN["softmax"](I, L, a, k), L)
    return W(I, ArrC(c.dims, nf.mklog(c.body), "float", L), L)


# ------------------------------------------------------------- reductions
def _red(name, fn, dt):
    def f(I, L, a, k):
        g = Args(I, a, k, ["x|a|input", "axis|dim", "dtype", "out", "keepdims|keepdim", "initial", "where"])
        if "where" in g or "initial" in g:
            raise Unknown(name + " with where/initial")
        c = toarr(I, g.need("x"), L)
        ax = axes_of(I, g.get("axis"))
        keep = truthy(I, g.get("keepdims", False))
        if L == "torch" and ax is not None and len(ax) == 0:
            ax = None
        r = A.reduce_(c, ax, keep, fn(c) if fn in (_meanfn, _stdfn, _varfn) else fn)
        r = r.with_(dt=dt(c))
        return W(I, cast(r, dtype_of(g.get("dtype"))) if g.get("dtype") is not None else r, L)
    FUN[name] = f


def count(temps):
    r = ONE
    for t in temps:
        r = r * nf.ixsize(t)
    return r


def _meanfn(c):
    return lambda b, ts: A.r_sum(b, ts) * nf.power(count(ts), -1)


def _varfn(c):
    return lambda b, ts: A.r_sum(b * b, ts) * nf.power(count(ts), -1) - nf.power(A.r_sum(b, ts) * nf.power(count(ts), -1), 2)


def _stdfn(c):
    return lambda b, ts: nf.power(_varfn(c)(b, ts), Fraction(1, 2))


_same = lambda c: "int" if c.dt == "bool" else c.dt
_red("sum", A.r_sum, _same)
_red("nansum", A.r_sum, _same)
_red("prod", A.r_prod, _same)
_red("mean", _meanfn, lambda c: "float")
_red("average", _meanfn, lambda c: "float")
_red("var", _varfn, lambda c: "float")
_red("std", _stdfn, lambda c: "float")
_red("any", lambda b, ts: A.r_any(b, ts), lambda c: "bool")
_red("all", lambda b, ts: A.r_all(b, ts), lambda c: "bool")
_red("count_nonzero", A.r_sum, lambda c: "int")
_cnt0 = FUN["count_nonzero"]


def _cnt(I, L, a, k):
    c = cast(toarr(I, a[0], L), "bool")
    return _cnt0(I, L, [I.new_arr(c)] + list(a[1:]), k)


FUN["count_nonzero"] = _cnt
for _n in ("any", "all"):
    def _mkaa(_f):
        def f(I, L, a, k):
            v = a[0] if a else k.get("a", k.get("input"))
            if isinstance(v, Ref) and I.get(v).kind == "gen":
                if L == "np":
                    # numpy treats a generator as a 0-d object: truthy
                    iterate(I, v)
                    return v
                raise AbsRaise("TypeError", "all(): argument 'input' must be Tensor, not generator", I.where())
            c = cast(toarr(I, v, L), "bool")
            return _f(I, L, [I.new_arr(c)] + list(a[1:]), {q: x for q, x in k.items() if q not in ("a", "input")})
        return f
    FUN[_n] = _mkaa(FUN[_n])

for _n in ("max", "min", "median"):
    _red(_n, A.r_op(_n), lambda c: c.dt)
FUN["amax"], FUN["amin"], FUN["nanmax"], FUN["nanmin"] = FUN["max"], FUN["min"], FUN["max"], FUN["min"]
for _n in ("argmax", "argmin"):
    _red(_n, A.r_op(_n), lambda c: "int")


def _tmaxmin(name):
    base, arg = FUN[name], FUN["arg" + name]

    def f(I, L, a, k):
        if L == "torch":
            g = Args(I, a, k, ["x|input", "axis|dim|other", "keepdims|keepdim"])
            ax = g.get("axis")
            if ax is not None and not is_num(ax):
                return FUN[name + "imum"](I, L, [g["x"], ax], {})
            if ax is not None:
                kw = {"axis": ax, "keepdims": g.get("keepdims", False)}
                return (base(I, L, [g["x"]], kw), arg(I, L, [g["x"]], kw))
            return base(I, L, [g["x"]], {})
        return base(I, L, a, k)
    FUN[name] = f


_tmaxmin("max")
_tmaxmin("min")


@reg("cumsum")
def _cumsum(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "axis|dim", "dtype"])
    c = toarr(I, g.need("x"), L)
    ax = axes_of(I, g.get("axis"))
    if ax is None and len(c.dims) == 1:
        ax = [0]
    if ax is None or len(c.dims[A.normaxis(ax[0], len(c.dims))]) > 1:
        raise Unknown("cumsum")
    k_ = A.normaxis(ax[0], len(c.dims))
    if not c.dims[k_]:
        return W(I, c, L)
    f = A.free_idx(c.dims)
    t = nf.tmp(c.dims[k_][0])
    idx = list(f)
    idx[k_] = [atom(t)]
    body = A.at(c, idx) * nf.mkge(f[k_][0] - atom(t))
    return W(I, ArrC(c.dims, nf.sum_over(body, t), c.dt, L), L)


@reg("norm")
def _norm(I, L, a, k):
    g = Args(I, a, k, ["x|input|A", "ord|p", "axis|dim", "keepdims|keepdim", "dtype"])
    c = toarr(I, g.need("x"), L)
    o = g.get("ord")
    if o is not None and not (is_num(o) and npoly(o).const() == 2) and o != "fro":
        raise Unknown("norm order")
    if is_num(o) and g.get("axis") is None and len(c.dims) > 1 and L != "torch":
        raise Unknown("spectral norm")
    ax = axes_of(I, g.get("axis"))
    r = A.reduce_(ArrC(c.dims, c.body * c.body, "float", L), ax, truthy(I, g.get("keepdims", False)), A.r_sum)
    return W(I, ArrC(r.dims, nf.mkfn("sqrt", r.body), "float", L), L)


# ------------------------------------------------------------- creation
def _mkdt(g, L, default="float"):
    d = g.get("dtype")
    return dtype_of(d) or default if d is not None else default


def _fill(name, val):
    def f(I, L, a, k):
        if L == "torch" and len(a) > 1 and all(is_num(x) for x in a):
            a = [tuple(a)]
        if L == "torch" and "size" in k:
            a = [k["size"]]
            k = {q: x for q, x in k.items() if q != "size"}
        g = Args(I, a, k, ["shape|size", "dtype"])
        s = shape_of(I, [g.need("shape")])
        return W(I, A.mk([A.axis(x) for x in s], val, _mkdt(g, L), L), L)
    FUN[name] = f


_fill("zeros", ZERO)
_fill("ones", ONE)


@reg("empty")
def _empty(I, L, a, k):
    g = Args(I, a, k, ["shape|size", "dtype"])
    s = shape_of(I, [g.need("shape")])
    return W(I, A.mk([A.axis(x) for x in s], nf.sym(f"uninit#{I._tn()}"), _mkdt(g, L), L), L)


@reg("full")
def _full(I, L, a, k):
    g = Args(I, a, k, ["shape|size", "fill_value", "dtype"])
    v = toarr(I, g.need("fill_value"), L)
    dims = tuple(A.axis(x) for x in shape_of(I, [g.need("shape")]))
    r = A.broadcast_to(v, dims)
    return W(I, ArrC(r.dims, r.body, _mkdt(g, L, v.dt), L), L)


def _like(name, val):
    def f(I, L, a, k):
        c = toarr(I, a[0], L)
        v = val
        dt = dtype_of(k.get("dtype")) or c.dt
        if v is None:
            v = toarr(I, a[1] if len(a) > 1 else k["fill_value"], L).body
        return W(I, ArrC(c.dims, v, dt, L), L)
    FUN[name] = f


_like("zeros_like", ZERO)
_like("ones_like", ONE)
_like("full_like", None)


@reg("empty_like")
def _emptylike(I, L, a, k):
    c = toarr(I, a[0], L)
    return W(I, ArrC(c.dims, nf.sym(f"uninit#{I._tn()}"), c.dt, L), L)


@reg("eye", "identity")
def _eye(I, L, a, k):
    g = Args(I, a, k, ["n|N", "m|M", "k", "dtype"])
    n = npoly(g.need("n"))
    m = npoly(g["m"]) if g.get("m") is not None else n
    kk = npoly(g.get("k", 0))
    dims = (A.axis(n), A.axis(m))
    f = A.free_idx(dims)
    return W(I, ArrC(dims, nf.mkeq(A.flat(dims[1], f[1]), A.flat(dims[0], f[0]) + kk), _mkdt(g, L), L), L)


@reg("arange")
def _arange(I, L, a, k):
    g = Args(I, a, k, ["start|stop|end", "stop2", "step", "dtype"]) if False else None
    k = dict(k)
    dt = k.pop("dtype", None)
    for q in ("device", "requires_grad"):
        k.pop(q, None)
    a = list(a)
    start, step = 0, k.pop("step", 1)
    if len(a) >= 3:
        step = a[2]
    if len(a) >= 2:
        start, stop = a[0], a[1]
    elif len(a) == 1:
        if "stop" in k or "end" in k:
            start, stop = a[0], k.get("stop", k.get("end"))
        else:
            stop = a[0]
    else:
        start, stop = k.get("start", 0), k.get("stop", k.get("end"))
    p, q, s = npoly(start), npoly(stop), npoly(step)
    n = q - p
    if s is not ONE:
        c = s.const()
        if c is None or n.const() is None:
            raise Unknown("arange step")
        n = const(-((-n.const()) // c))
    dims = (A.axis(n),)
    f = A.free_idx(dims)[0]
    kind = "float" if "float" in (nkind(start), nkind(stop), nkind(step)) else "int"
    return W(I, ArrC(dims, p + s * A.flat(dims[0], f), dtype_of(dt) or kind, L), L)


@reg("linspace")
def _linspace(I, L, a, k):
    g = Args(I, a, k, ["start", "stop|end", "num|steps", "endpoint", "retstep", "dtype"])
    x, y, n = npoly(g.need("start")), npoly(g.need("stop")), npoly(g.get("num", 50))
    dims = (A.axis(n),)
    f = A.flat(dims[0], A.free_idx(dims)[0])
    den = n - 1 if truthy(I, g.get("endpoint", True)) else n
    if den.const() == 0:
        body = x
    else:
        body = x + (y - x) * f * nf.power(den, -1)
    return W(I, ArrC(dims, body, "float", L), L)


@reg("array", "asarray", "tensor", "as_tensor", "asanyarray", "ascontiguousarray", "from_numpy", "Tensor", "FloatTensor")
def _array(I, L, a, k):
    g = Args(I, a, k, ["x|object|data|a", "dtype", "copy", "ndmin"])
    v = g.need("x")
    if isinstance(v, Ref) and I.get(v).kind == "gen":
        raise Unknown("array of generator")
    c = toarr(I, v, L)
    dt = dtype_of(g.get("dtype"))
    c2 = stopped(I, cast(c, dt)).with_(lib=L)
    if g.get("ndmin") is not None:
        while len(c2.dims) < g["ndmin"]:
            c2 = A.expand(c2, 0)
    return I.new_arr(c2.with_(lib=L, view=None, root=None))


@reg("asarray", "asanyarray", "ascontiguousarray", "as_tensor", "from_numpy")
def _asarray(I, L, a, k):
    if is_arr(I, a[0]):
        c = I.arr(a[0])
        dt = dtype_of(a[1] if len(a) > 1 else k.get("dtype"))
        if dt in (None, c.dt) and c.lib == L:
            return a[0]
        if I.grad is not None and c.lib == L:
            return I.new_arr(cast(c, dt).with_(view=None, root=None))
        if c.lib != L and dt in (None, c.dt):
            # shares memory
            r = mkview(I, a[0], "reshape", [A.sizeof(ax) for ax in c.dims], c)
            I.mut(r).lib = L
            return r
    return _array(I, L, a, k)


@reg("copy", "clone")
def _copy(I, L, a, k):
    g = Args(I, a, k, ["x|a|input"])
    c = toarr(I, g.need("x"), L)
    return I.new_arr(c.with_(view=None, root=None, lib=L))


@reg("copyto")
def _copyto(I, L, a, k):
    c = I.arr(a[0])
    v = A.broadcast_to(toarr(I, a[1], L), c.dims)
    I.write_arr(a[0], v)
    return None


@reg("atleast_1d", "atleast_2d", "atleast_3d")
def _dummy(I, L, a, k):
    raise Unknown("atleast")


def _atleast(n):
    def f(I, L, a, k):
        if len(a) != 1:
            return [FUN[f"atleast_{n}d"](I, L, [x], {}) for x in a]
        v = a[0]
        c = toarr(I, v, L)
        if len(c.dims) >= n and is_arr(I, v):
            return v
        if n >= 1 and len(c.dims) == 0:
            for _ in range(n):
                c = A.expand(c, 0)
        elif n == 2 and len(c.dims) == 1:
            c = A.expand(c, 0)
        elif n == 3:
            if len(c.dims) == 1:
                c = A.expand(A.expand(c, 0), -1)
            elif len(c.dims) == 2:
                c = A.expand(c, -1)
        if is_arr(I, v) and I.get(v).lib != "jax":
            return mkview(I, v, "reshape", [A.sizeof(ax) for ax in c.dims], c)
        return I.new_arr(c.with_(view=None, root=None, lib=L))
    return f


for _i in (1, 2, 3):
    FUN[f"atleast_{_i}d"] = _atleast(_i)


# ------------------------------------------------------------- shape
def view_or(I, v, c, kind, par):
    if is_arr(I, v) and I.get(v).lib != "jax":
        return mkview(I, v, kind, par, c)
    return I.new_arr(c.with_(view=None, root=None))


@reg("reshape")
def _reshape(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "shape|newshape", "order"])
    if g.get("order") not in (None, "C", "F"):
        raise Unknown("reshape order")
    v = g.need("x")
    c = toarr(I, v, L)
    s = shape_of(I, [g.need("shape")])
    if g.get("order") == "F":
        r = A.reshape(A.permute(c, list(range(len(c.dims)))[::-1]), s[::-1])
        return I.new_arr(A.permute(r, list(range(len(r.dims)))[::-1]).with_(view=None, root=None))
    r = A.reshape(c, s)
    return view_or(I, v, r, "reshape", [A.sizeof(ax) for ax in r.dims])


@reg("ravel", "flatten")
def _ravel(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "order"])
    return _reshape(I, L, [g.need("x"), -1], {"order": g.get("order")})


@reg("squeeze")
def _squeeze(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "axis|dim"])
    v = g.need("x")
    c = toarr(I, v, L)
    r = A.squeeze(c, axes_of(I, g.get("axis")))
    if not r.dims and L == "np" and not is_arr(I, v):
        return v
    return view_or(I, v, r, "squeeze", [A.sizeof(ax) for ax in r.dims])


@reg("expand_dims", "unsqueeze")
def _expand(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "axis|dim"])
    v = g.need("x")
    c = toarr(I, v, L)
    for x in axes_of(I, g.need("axis")):
        c = A.expand(c, x)
    return view_or(I, v, c, "reshape", [A.sizeof(ax) for ax in c.dims])


@reg("transpose", "permute", "permute_dims")
def _transpose(I, L, a, k):
    if L == "torch" and len(a) == 3 and not k:
        return _swap(I, L, a, k)
    g = Args(I, a, k, ["x|a|input", "axes|dims"])
    v = g.need("x")
    c = toarr(I, v, L)
    ax = axes_of(I, g.get("axes"))
    n = len(c.dims)
    perm = list(range(n))[::-1] if ax is None else [A.normaxis(x, n) for x in ax]
    if sorted(perm) != list(range(n)):
        raise AbsRaise("ValueError", "axes don't match array", I.where())
    return view_or(I, v, A.permute(c, perm), "perm", perm)


@reg("swapaxes", "swapdims")
def _swap(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "i|axis1|dim0|axis0", "j|axis2|dim1|axis1"]) if not k else Args(I, a, k, ["x|a|input", "i|axis1|dim0", "j|axis2|dim1"])
    v = g.need("x")
    c = toarr(I, v, L)
    n = len(c.dims)
    i, j = A.normaxis(g.need("i"), n), A.normaxis(g.need("j"), n)
    perm = list(range(n))
    perm[i], perm[j] = perm[j], perm[i]
    return view_or(I, v, A.permute(c, perm), "perm", perm)


@reg("moveaxis", "movedim")
def _moveaxis(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "source", "destination"])
    v = g.need("x")
    c = toarr(I, v, L)
    n = len(c.dims)
    s, d = axes_of(I, g["source"]), axes_of(I, g["destination"])
    s, d = [A.normaxis(x, n) for x in s], [A.normaxis(x, n) for x in d]
    order = [x for x in range(n) if x not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return view_or(I, v, A.permute(c, order), "perm", order)


@reg("broadcast_to")
def _bto(I, L, a, k):
    g = Args(I, a, k, ["x|array|input|arr", "shape|size"])
    c = toarr(I, g.need("x"), L)
    dims = tuple(A.axis(s) for s in shape_of(I, [g.need("shape")]))
    r = A.broadcast_to(c, dims)
    return I.new_arr(r.with_(view=None, root=None))


def seq_arrays(I, v, L):
    items = iterate(I, v)
    if items is None:
        raise Unknown("sequence of arrays")
    if isinstance(items, SeqV):
        return items
    if any(isinstance(x, _I().CondItem) for x in items):
        raise Unknown("conditional list of arrays")
    return [toarr(I, x, L) for x in items]


def concat_seq(I, seq, k, L):
    """concatenate a symbolic number of arrays along axis k"""
    t = nf.tmp(seq.n)
    e = toarr(I, seq.get(atom(t)), L)
    n = len(e.dims)
    k = A.normaxis(k, n)
    if any(t in f.ixs for ax in e.dims for f in ax):
        if n != 1 or len(e.dims[0]) != 1:
            raise Unknown("ragged concatenation")
        # pieces of different lengths, one after the other
        u = nf.tmp(A.sizeof(e.dims[0]))
        body = A.at(e, [[atom(u)]])
        total = nf.sum_over(A.sizeof(e.dims[0]), t)
        dims = (A.axis(total),)
        f = A.free_idx(dims)
        lams = (nf.mklam((t,), A.sizeof(e.dims[0])), nf.mklam((t, u), body))
        return e.with_(dims=dims, body=nf.mkop("pieces", (), lams, (f[0][0] if f[0] else ZERO,)), view=None, root=None)
    ax = A.axis(seq.n) + e.dims[k]
    dims = e.dims[:k] + (ax,) + e.dims[k + 1:]
    f = A.free_idx(dims)
    m = len(A.axis(seq.n))
    idx = list(f)
    idx[k] = f[k][m:]
    body = A.at(e, idx)
    body = subst(body, {t: f[k][0] if m else ZERO})
    return ArrC(dims, body, e.dt, L)


@reg("concatenate", "cat", "concat")
def _concat(I, L, a, k):
    g = Args(I, a, k, ["x|arrays|tensors", "axis|dim", "dtype"])
    arrs = seq_arrays(I, g.need("x"), L)
    ax = g.get("axis", 0)
    if isinstance(arrs, SeqV):
        return I.new_arr(concat_seq(I, arrs, ax, L))
    if not arrs:
        raise AbsRaise("ValueError", "need at least one array to concatenate", I.where())
    if ax is None:
        arrs = [A.reshape(c, [None]) for c in arrs]
        ax = 0
    if any(not c.dims for c in arrs):
        raise AbsRaise("ValueError", "zero-dimensional arrays cannot be concatenated", I.where())
    return I.new_arr(A.concat(arrs, ax, L).with_(lib=L, root=None, view=None))


@reg("stack")
def _stack(I, L, a, k):
    g = Args(I, a, k, ["x|arrays|tensors", "axis|dim"])
    arrs = seq_arrays(I, g.need("x"), L)
    ax = g.get("axis", 0)
    if isinstance(arrs, SeqV):
        c = seq_arr(I, arrs, L)
        n = len(c.dims)
        p = A.normaxis(ax, n)
        perm = list(range(1, n))
        perm.insert(p, 0)
        return I.new_arr(A.permute(c, perm))
    n = len(arrs[0].dims) + 1
    return I.new_arr(A.stack(arrs, A.normaxis(ax, n), L).with_(lib=L, root=None, view=None))


@reg("hstack")
def _hstack(I, L, a, k):
    arrs = seq_arrays(I, a[0], L)
    if isinstance(arrs, SeqV):
        t = nf.tmp(arrs.n)
        e = toarr(I, arrs.get(atom(t)), L)
        if not e.dims:
            return I.new_arr(seq_arr(I, arrs, L))
        return I.new_arr(concat_seq(I, arrs, 0 if len(e.dims) == 1 else 1, L))
    arrs = [A.expand(c, 0) if not c.dims else c for c in arrs]
    return I.new_arr(A.concat(arrs, 0 if len(arrs[0].dims) == 1 else 1, L).with_(lib=L, root=None, view=None))


@reg("vstack", "row_stack")
def _vstack(I, L, a, k):
    arrs = seq_arrays(I, a[0], L)
    if isinstance(arrs, SeqV):
        t = nf.tmp(arrs.n)
        e = toarr(I, arrs.get(atom(t)), L)
        if len(e.dims) == 1:
            return I.new_arr(seq_arr(I, arrs, L))
        return I.new_arr(concat_seq(I, arrs, 0, L))
    out = []
    for c in arrs:
        while len(c.dims) < 2:
            c = A.expand(c, 0)
        out.append(c)
    return I.new_arr(A.concat(out, 0, L).with_(lib=L, root=None, view=None))


@reg("column_stack")
def _cstack(I, L, a, k):
    arrs = seq_arrays(I, a[0], L)
    if isinstance(arrs, SeqV):
        raise Unknown("column_stack")
    out = []
    for c in arrs:
        while len(c.dims) < 2:
            c = A.expand(c, -1)
        out.append(c)
    return I.new_arr(A.concat(out, 1, L).with_(lib=L, root=None, view=None))


@reg("repeat", "repeat_interleave")
def _repeat(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "n|repeats", "axis|dim"])
    c = toarr(I, g.need("x"), L)
    n = g.need("n")
    if not is_num(n):
        n = toarr(I, n, L)
        if n.dims:
            raise Unknown("array repeats")
        n = n.body
    else:
        n = npoly(n)
    ax = axes_of(I, g.get("axis"))
    if ax is None:
        c = A.reshape(c, [None])
        ax = [0]
    return I.new_arr(A.repeat_each(c, n, A.normaxis(ax[0], len(c.dims))).with_(root=None, view=None, lib=L))


@reg("tile")
def _tile(I, L, a, k):
    g = Args(I, a, k, ["x|A|input", "reps|dims"])
    c = toarr(I, g.need("x"), L)
    reps = shape_of(I, [g.need("reps")])
    while len(c.dims) < len(reps):
        c = A.expand(c, 0)
    reps = [ONE] * (len(c.dims) - len(reps)) + reps
    for i, r in enumerate(reps):
        if r is not ONE:
            c = A.tile_axis(c, r, i)
    return I.new_arr(c.with_(root=None, view=None, lib=L))


@reg("diag")
def _diag(I, L, a, k):
    g = Args(I, a, k, ["x|v|input", "k|diagonal"])
    if g.get("k", 0) != 0:
        raise Unknown("diag offset")
    c = toarr(I, g.need("x"), L)
    if len(c.dims) == 1:
        dims = (c.dims[0], c.dims[0])
        f = A.free_idx(dims)
        b = A.at(c, [f[0]])
        for x, y in zip(f[0], f[1]):
            b = b * nf.mkeq(x, y)
        return I.new_arr(ArrC(dims, b, c.dt, L))
    return _diagonal(I, L, [g["x"]], {})


@reg("diagonal")
def _diagonal(I, L, a, k):
    if L == "np" and "dtype" in k:
        raise AbsRaise("TypeError", "diagonal() got an unexpected keyword argument 'dtype'", I.where())
    g = Args(I, a, k, ["x|a|input", "offset", "i|axis1|dim1", "j|axis2|dim2"])
    if g.get("offset", 0) != 0:
        raise Unknown("diagonal offset")
    c = toarr(I, g.need("x"), L)
    n = len(c.dims)
    i, j = A.normaxis(g.get("i", 0), n), A.normaxis(g.get("j", 1), n)
    rest = [x for x in range(n) if x not in (i, j)]
    ax = c.dims[i]
    if A.sizeof(ax) is not A.sizeof(c.dims[j]):
        raise Unknown("diagonal of non square")
    dims = tuple(c.dims[x] for x in rest) + (ax,)
    f = A.free_idx(dims)
    idx = [None] * n
    for p, x in enumerate(rest):
        idx[x] = f[p]
    idx[i] = f[-1]
    idx[j] = f[-1] if c.dims[j] == ax else A.split_index(A.flat(ax, f[-1]), c.dims[j])
    return W(I, ArrC(dims, A.at(c, idx), c.dt, L), L)


@reg("trace")
def _trace(I, L, a, k):
    d = _diagonal(I, L, a, k)
    return FUN["sum"](I, L, [d], {"axis": -1})


@reg("flip", "fliplr", "flipud")
def _flip(I, L, a, k):
    raise Unknown("flip")


@reg("meshgrid")
def _meshgrid(I, L, a, k):
    cs = [A.reshape(toarr(I, x, L), [None]) for x in a]
    ij = k.get("indexing", "xy") == "ij"
    n = len(cs)
    pos = list(range(n))
    if not ij and n >= 2:
        pos[0], pos[1] = 1, 0
    dims = [None] * n
    for q, c in zip(pos, cs):
        dims[q] = c.dims[0]
    f = A.free_idx(dims)
    return I.new_list([I.new_arr(ArrC(tuple(dims), A.at(c, [f[q]]), c.dt, L)) for q, c in zip(pos, cs)])


# ------------------------------------------------------------- linear algebra
@reg("einsum")
def _einsum(I, L, a, k):
    spec = a[0]
    if not isinstance(spec, str):
        raise Unknown("einsum spec")
    ops = a[1:]
    if len(ops) == 1 and isinstance(ops[0], (tuple,)):
        ops = list(ops[0])
    return W(I, A.einsum(spec, [toarr(I, x, L) for x in ops], L), L)


@reg("matmul", "bmm", "mm")
def _matmul(I, L, a, k):
    g = Args(I, a, k, ["x|x1|input", "y|x2|other|mat2"])
    return W(I, A.matmul(toarr(I, g.need("x"), L), toarr(I, g.need("y"), L), L), L)


@reg("dot", "inner", "vdot")
def _dot(I, L, a, k):
    x, y = toarr(I, a[0], L), toarr(I, a[1], L)
    if not x.dims or not y.dims:
        return I.binop("Mult", a[0], a[1])
    if len(x.dims) <= 2 and len(y.dims) <= 2:
        return W(I, A.matmul(x, y, L), L)
    s = "abcdef"[:len(x.dims) - 1]
    t = "ghijkl"[:len(y.dims) - 2]
    return W(I, A.einsum(f"{s}y,{t}yz->{s}{t}z", [x, y], L), L)


@reg("tensordot")
def _tensordot(I, L, a, k):
    g = Args(I, a, k, ["x|a", "y|b", "axes|dims"])
    x, y = toarr(I, g["x"], L), toarr(I, g["y"], L)
    ax = g.get("axes", 2)
    if isinstance(ax, int):
        p, q = list(range(len(x.dims) - ax, len(x.dims))), list(range(ax))
    else:
        it = iterate(I, ax)
        p, q = axes_of(I, it[0]), axes_of(I, it[1])
    p = [A.normaxis(v, len(x.dims)) for v in p]
    q = [A.normaxis(v, len(y.dims)) for v in q]
    lx = [chr(97 + i) for i in range(len(x.dims))]
    ly = [chr(110 + i) for i in range(len(y.dims))]
    for u, v in zip(p, q):
        ly[v] = lx[u]
    out = [c for i, c in enumerate(lx) if i not in p] + [c for i, c in enumerate(ly) if i not in q]
    return W(I, A.einsum(f"{''.join(lx)},{''.join(ly)}->{''.join(out)}", [x, y], L), L)


@reg("outer")
def _outer(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "y|b|vec2"])
    x, y = A.reshape(toarr(I, g["x"], L), [None]), A.reshape(toarr(I, g["y"], L), [None])
    return W(I, A.einsum("i,j->ij", [x, y], L), L)


@reg("linalg.solve")
def _solve(I, L, a, k):
    g = Args(I, a, k, ["A|a", "B|b", "left"])
    return W(I, A.solve(toarr(I, g.need("A"), L), toarr(I, g.need("B"), L), L), L)


@reg("linalg.inv", "inverse", "linalg.pinv")
def _linv(I, L, a, k):
    return W(I, A.inverse(toarr(I, a[0], L)), L)


@reg("linalg.slogdet", "slogdet")
def _slogdet(I, L, a, k):
    c = toarr(I, a[0], L)
    ld = A.logdet(c)
    return (W(I, ld.with_(body=nf.mkfn("detsign", ld.body)), L), W(I, ld, L))


@reg("linalg.det", "det")
def _det(I, L, a, k):
    ld = A.logdet(toarr(I, a[0], L))
    return W(I, ld.with_(body=nf.mkexp(ld.body)), L)


@reg("logdet", "linalg.logdet")
def _logdet(I, L, a, k):
    return W(I, A.logdet(toarr(I, a[0], L)), L)


@reg("linalg.cholesky", "cholesky", "linalg.cholesky_ex")
def _chol(I, L, a, k):
    c = toarr(I, a[0], L)
    n = len(c.dims)
    if n < 2:
        raise AbsRaise("LinAlgError", "cholesky of a vector")
    f = A.free_idx(c.dims)
    t1, t2 = A.temps_for(c.dims[-2]), A.temps_for(c.dims[-1])
    body = A.at(c, f[:-2] + [[atom(t) for t in t1], [atom(t) for t in t2]])
    return W(I, ArrC(c.dims, nf.mkop("chol", (), (nf.mklam(tuple(t1 + t2), body),), tuple(f[-2]) + tuple(f[-1])), "float", L), L)


FUN["linalg.norm"] = FUN["norm"]


# ------------------------------------------------------------- selection / opaque
def op1d(I, L, name, c, n, dt, extra=()):
    """1-d opaque array of length n computed from the content of c"""
    temps = [A.temps_for(ax) for ax in c.dims]
    flat = tuple(t for r in temps for t in r)
    body = A.at(c, [[atom(t) for t in r] for r in temps])
    lam = nf.mklam(flat, body)
    dims = (A.axis(n),)
    f = A.free_idx(dims)[0]
    return ArrC(dims, nf.mkop(name, tuple(extra), (lam,), (A.flat(dims[0], f),)), dt, L)


@reg("unique")
def _unique(I, L, a, k):
    g = Args(I, a, k, ["x|ar|input", "return_index", "return_inverse", "return_counts", "axis|dim", "sorted"])
    c = toarr(I, g.need("x"), L)
    if g.get("axis") is not None:
        raise Unknown("unique along axis")
    temps = [A.temps_for(ax) for ax in c.dims]
    flat = tuple(t for r in temps for t in r)
    lam = nf.mklam(flat, A.at(c, [[atom(t) for t in r] for r in temps]))
    n = nf.mkop("nnz", ("unique",), (lam,), ())
    out = [I.new_arr(op1d(I, L, "unique", c, n, c.dt))]
    if truthy(I, g.get("return_index", False)):
        out.append(I.new_arr(op1d(I, L, "unique_index", c, n, "int")))
    if truthy(I, g.get("return_inverse", False)):
        f = A.free_idx(c.dims)
        out.append(I.new_arr(ArrC(c.dims, nf.mkop("unique_inverse", (), (lam,), tuple(x for r in f for x in r)), "int", L)))
    if truthy(I, g.get("return_counts", False)):
        out.append(I.new_arr(op1d(I, L, "unique_counts", c, n, "int")))
    return out[0] if len(out) == 1 else tuple(out)


@reg("sort")
def _sort(I, L, a, k):
    c = toarr(I, a[0], L)
    if len(c.dims) != 1:
        raise Unknown("sort")
    return I.new_arr(op1d(I, L, "sort", c, A.sizeof(c.dims[0]), c.dt))


def axis_op(I, L, name, v, ax, dt):
    """opaque operator along one axis keeping the shape (argsort, sort...)"""
    c = toarr(I, v, L)
    n = len(c.dims)
    ax = A.normaxis(ax, n)
    f = A.free_idx(c.dims)
    t = A.temps_for(c.dims[ax])
    idx = list(f)
    idx[ax] = [atom(x) for x in t]
    lam = nf.mklam(tuple(t), A.at(c, idx))
    return I.new_arr(ArrC(c.dims, nf.mkop(name, (), (lam,), tuple(f[ax])), dt, L))


@reg("argsort")
def _argsort(I, L, a, k):
    g = Args(I, a, k, ["x|a|input", "axis|dim", "kind", "order", "stable", "descending"])
    stable = g.get("stable", L == "jax") is True or g.get("kind") in ("stable", "mergesort")
    name = "argsort" if stable else "argsort?"
    if g.get("descending", False) is not False or not isinstance(g.get("stable", True), bool):
        raise Unknown("argsort")
    return axis_op(I, L, name, g.need("x"), g.get("axis", -1), "int")


@reg("take")
def _take(I, L, a, k):
    g = Args(I, a, k, ["x|a", "indices", "axis"])
    c = toarr(I, g.need("x"), L)
    ax = g.get("axis")
    if ax is None:
        c = A.reshape(c, [None])
        ax = 0
    key = [Slice(None, None, None)] * A.normaxis(ax, len(c.dims))
    i = toarr(I, g["indices"], L)
    return W(I, A.getitem(c, key + [i.body if not i.dims else i]), L)


@reg("take_along_axis")
def _tala(I, L, a, k):
    g = Args(I, a, k, ["x|arr", "indices", "axis"])
    c, i = toarr(I, g["x"], L), toarr(I, g["indices"], L)
    n = len(c.dims)
    ax = A.normaxis(g["axis"], n)
    f = A.free_idx(i.dims)
    idx = []
    for q in range(n):
        if q == ax:
            idx.append(A.split_index(i.body, c.dims[q]))
        elif c.dims[q] == i.dims[q]:
            idx.append(f[q])
        else:
            raise Unknown("take_along_axis")
    return W(I, ArrC(i.dims, A.at(c, idx), c.dt, L), L)


@reg("searchsorted")
def _ss(I, L, a, k):
    raise Unknown("searchsorted")


@reg("delete")
def _delete(I, L, a, k):
    raise Unknown("delete")


@reg("choose")
def _choose(I, L, a, k):
    c = toarr(I, a[0], L)
    items = iterate(I, a[1])
    if items is None or isinstance(items, SeqV):
        raise Unknown("choose")
    cs = [toarr(I, x, L) for x in items]
    dims, bs = A.broadcast([c] + cs)
    sel, bs = bs[0], bs[1:]
    if len(bs) == 2 and c.dt == "bool":
        body = nf.mkphi(sel, bs[1], bs[0])
    else:
        body = ZERO
        for i, b in enumerate(bs):
            body = body + nf.mkeq(sel, const(i)) * b
    dt = cs[0].dt
    for x in cs[1:]:
        dt = A.promote_dt(dt, x.dt)
    return W(I, ArrC(dims, body, dt, L), L)


@reg("cov", "corrcoef")
def _cov(I, L, a, k):
    raise Unknown("cov/corrcoef")


@reg("isin", "in1d")
def _isin(I, L, a, k):
    x, y = toarr(I, a[0], L), toarr(I, a[1], L)
    t = [A.temps_for(ax) for ax in y.dims]
    e = nf.mkeq(x.body, A.at(y, [[atom(u) for u in r] for r in t]))
    r = A.r_any(e, [u for q in t for u in q])
    if truthy(I, k.get("invert", False)):
        r = ONE - r
    return W(I, ArrC(x.dims, r, "bool", L), L)


@reg("ndim")
def _ndim(I, L, a, k):
    return len(toarr(I, a[0], L).dims)


@reg("shape")
def _shape(I, L, a, k):
    return tuple(mknum(s, "int") for s in A.shape(toarr(I, a[0], L)))


@reg("size", "numel")
def _size(I, L, a, k):
    r = ONE
    c = toarr(I, a[0], L)
    if len(a) > 1 and a[1] is not None:
        return mknum(A.sizeof(c.dims[A.normaxis(a[1], len(c.dims))]), "int")
    for s in A.shape(c):
        r = r * s
    return mknum(r, "int")


@reg("isscalar")
def _isscalar(I, L, a, k):
    return is_num(a[0]) or isinstance(a[0], (str, StrV))


@reg("ix_")
def _ix(I, L, a, k):
    out = []
    for q, x in enumerate(a):
        c = toarr(I, x, L)
        for _ in range(q):
            c = A.expand(c, 0)
        for _ in range(len(a) - 1 - q):
            c = A.expand(c, -1)
        out.append(I.new_arr(c))
    return tuple(out)


@reg("divmod")
def _divmod(I, L, a, k):
    return (I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1]))


@reg("subtract.outer")
def _subouter(I, L, a, k):
    x, y = toarr(I, a[0], L), toarr(I, a[1], L)
    for _ in y.dims:
        x = A.expand(x, -1)
    return W(I, A.elementwise(lambda p, q: p - q, [x, y], A.promote_dt(x.dt, y.dt), L), L)


# ------------------------------------------------------------- randomness
def rand_arr(I, L, dims, what, dt="float"):
    I.rng = getattr(I, "rng", 0) + 1
    f = [x for r in A.free_idx(dims) for x in r]
    nm = f"rand#{what}{I.rng}"
    if dt == "int":
        nf.INT_ARRAYS.add(nm)
    return ArrC(tuple(dims), nf.mkel(nm, f), dt, L)


def _random(what):
    def f(I, L, a, k):
        size = k.get("size")
        if what in ("rand", "randn") and a:
            size = tuple(a)
        elif what in ("normal", "uniform") and len(a) > 2:
            size = a[2]
        elif what in ("random", "random_sample", "standard_normal") and a:
            size = a[0]
        dims = () if size is None else tuple(A.axis(s) for s in shape_of(I, [size]))
        I.event("random", what=what)
        base = "uniform" if what in ("rand", "random", "random_sample") else "normal" if what in ("randn", "standard_normal") else what
        r = rand_arr(I, L, dims, base)
        if base == "uniform":
            nf.POSITIVE_SYMS.add(f"rand#uniform{I.rng}")
        if what in ("uniform", "normal"):
            lo, hi = ("low", "high") if what == "uniform" else ("loc", "scale")
            x = a[0] if a else k.get(lo, 0.0)
            y = a[1] if len(a) > 1 else k.get(hi, 1.0)
            u = W(I, r, L)
            w = I.binop("Sub", y, x) if what == "uniform" else y
            return I.binop("Add", x, I.binop("Mult", w, u))
        return W(I, r, L)
    return f


for _n in ("rand", "randn", "normal", "uniform", "random", "random_sample", "standard_normal"):
    FUN["random." + _n] = _random(_n)
FUN["rand"] = FUN["random.rand"]
FUN["randn"] = FUN["random.randn"]


@reg("random.seed", "manual_seed")
def _seed(I, L, a, k):
    I.event("random", what="seed")
    return None


@reg("random.randint", "randint", "random.integers")
def _randint(I, L, a, k):
    lo = a[0] if a else k.get("low")
    hi = a[1] if len(a) > 1 else k.get("high")
    size = k.get("size", a[2] if len(a) > 2 else None)
    if hi is not None and not is_num(hi) and size is None:
        hi, size = None, hi
    if is_num(lo) and (hi is None or is_num(hi)) and not truthy(I, k.get("endpoint", False)):
        lo, hi = (ZERO, npoly(lo)) if hi is None else (npoly(lo), npoly(hi))
        dims = (A.axis(hi - lo),)
        cand = ArrC(dims, lo + A.flat(dims[0], A.free_idx(dims)[0]), "int", L)
        return W(I, choice_of(I, L, cand, None if size is None else shape_of(I, [size]), True), L)
    dims = () if size is None else tuple(A.axis(s) for s in shape_of(I, [size]))
    I.event("random", what="randint")
    return W(I, rand_arr(I, L, dims, "randint", "int"), L)


def choice_of(I, L, cand, size, replace, how="choice"):
    """draw from the 1-d candidate array"""
    I.rng = getattr(I, "rng", 0) + 1
    tag = (how, "rep" if replace else "norep", I.rng)
    n = A.sizeof(cand.dims[0])
    I.event("random", what="choice", replace=replace, cand=cand, size=size, tag=tag)
    dims = () if size is None else tuple(A.axis(s) for s in size)
    f = [x for r in A.free_idx(dims) for x in r]
    flatax = [s for ax in dims for s in ax]
    pos = A.flat(flatax, f) if f else ZERO
    sz = ONE
    for s in flatax:
        sz = sz * s
    j = nf.mkop("choice", tag, (), (n, sz, pos))
    return ArrC(dims, A.at(cand, [A.split_index(j, cand.dims[0])]), cand.dt, L)


@reg("random.choice")
def _choice(I, L, a, k):
    g = Args(I, a, k, ["a", "size", "replace", "p", "axis", "shuffle"])
    if g.get("p") is not None:
        raise Unknown("weighted choice")
    v = g.need("a")
    if is_num(v):
        dims = (A.axis(npoly(v)),)
        c = ArrC(dims, A.flat(dims[0], A.free_idx(dims)[0]), "int", L)
    else:
        c = toarr(I, v, L)
    if len(c.dims) != 1:
        raise AbsRaise("ValueError", "'a' must be 1-dimensional", I.where())
    size = g.get("size")
    size = None if size is None else shape_of(I, [size])
    return W(I, choice_of(I, L, c, size, truthy(I, g.get("replace", True))), L)


@reg("random.permutation")
def _perm(I, L, a, k):
    v = a[0]
    if is_num(v):
        dims = (A.axis(npoly(v)),)
        c = ArrC(dims, A.flat(dims[0], A.free_idx(dims)[0]), "int", L)
    else:
        c = toarr(I, v, L)
    if len(c.dims) != 1:
        raise Unknown("permutation of matrix")
    return W(I, choice_of(I, L, c, [A.sizeof(c.dims[0])], False), L)


@reg("random.default_rng", "random.RandomState")
def _rng(I, L, a, k):
    I.event("random", what="generator")
    return I.alloc(ObjC(ExtV("numpy.random.Generator"), {}))


@reg("histogram")
def _hist(I, L, a, k):
    c = toarr(I, a[0], L)
    b = a[1] if len(a) > 1 else k.get("bins", 10)
    c1 = A.reshape(c, [None])
    if is_num(b):
        n = npoly(b)
        lam = op1d(I, L, "histcount", c1, n, "int", ())
        ed = op1d(I, L, "histedge", c1, n + ONE, "float", ())
        cnt = lam.with_(body=nf.mkop("histcount", (nf.show(n),), lam.body.single().args[2], lam.body.single().args[3]))
        edg = ed.with_(body=nf.mkop("histedge", (nf.show(n),), ed.body.single().args[2], ed.body.single().args[3]))
        return (I.new_arr(cnt), I.new_arr(edg))
    raise Unknown("histogram with edges")


@reg("digitize")
def _digi(I, L, a, k):
    c, b = toarr(I, a[0], L), toarr(I, a[1], L)
    t = A.temps_for(b.dims[0])
    lam = nf.mklam(tuple(t), A.at(b, [[atom(x) for x in t]]))
    right = truthy(I, a[2] if len(a) > 2 else k.get("right", False))
    return W(I, ArrC(c.dims, nf.mkop("digitize", ("right" if right else "left",), (lam,), (c.body,)), "int", L), L)
