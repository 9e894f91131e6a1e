"""Scenario drivers: set up one abstract configuration of the library (symbolic
arrays, symbolic sizes, symbolic hyperparameters), let the analyser derive the
value numbers of a public result, and compare them with a specification written
in index notation.
"""
import ast
from . import nf, arr as A
from .nf import ONE, ZERO, const, lift, atom, Poly
from .values import *
from .interp import Interp, ModFrame, is_num, num_poly
from .arr import Unknown

SRC = "/repo/src"
ENABLED = {"jax": ("tensorflow_probability",), "mpi": ("mpi4py",)}


class Vanished(Exception):
    """A public name the scenario needs no longer exists."""


class Sym:
    """Specification-side handle of an input array: callable with indices."""

    def __init__(self, name, sizes):
        self.name, self.sizes = name, [lift(s) for s in sizes]

    def __call__(self, *idx):
        if len(idx) != len(self.sizes):
            raise TypeError(f"{self.name}: {len(idx)} indices for {len(self.sizes)} axes")
        return nf.mkel(self.name, [lift(i) for i, s in zip(idx, self.sizes) if s is not ONE])


class Spec:
    """dims + body built from an index function"""

    def __init__(self, sizes, fn):
        self.sizes = [lift(s) for s in sizes]
        dims = tuple(A.axis(s) for s in self.sizes)
        f = A.free_idx(dims)
        self.arr = ArrC(dims, lift(fn(*[x[0] if x else ZERO for x in f])), "float", "np")


def ssum(size, fn):
    size = lift(size)
    if size is ONE:
        return lift(fn(ZERO))
    t = nf.tmp(size)
    return nf.sum_over(lift(fn(atom(t))), t)


def smean(size, fn):
    return ssum(size, fn) * nf.power(lift(size), -1)


def table(sizes, fn):
    """an ArrC from an index function (specification side)"""
    return Spec(sizes, fn).arr


def inverse(size, fn):
    """index function of the inverse of the square matrix fn(i, j)"""
    size = lift(size)
    if size is ONE:
        v = nf.power(lift(fn(ZERO, ZERO)), -1)
        return lambda i, j: v
    t1, t2 = nf.tmp(size), nf.tmp(size)
    lam = nf.mklam((t1, t2), lift(fn(atom(t1), atom(t2))))
    return lambda i, j: nf.mkop("inv", (), (lam,), (lift(i), lift(j)))


def logdet(size, fn):
    size = lift(size)
    if size is ONE:
        return nf.mklog(nf.mkfn("abs", lift(fn(ZERO, ZERO))))
    t1, t2 = nf.tmp(size), nf.tmp(size)
    lam = nf.mklam((t1, t2), lift(fn(atom(t1), atom(t2))))
    return nf.mkop("logdet", (), (lam,), ())


class S:
    """one abstract configuration"""

    def __init__(self, backend="numpy", ftype="64", world=None, enabled=(), src=None):
        from . import check
        if backend == "mpi" and world is None:
            world = (nf.sym("rank"), nf.dim("ranks"))
        self.backend = backend
        self.lib = {"torch": "torch", "jax": "jax"}.get(backend, "np")
        self.I = Interp(src or check.SRC, backend, ftype, world=world,
                        enabled=tuple(enabled) + ENABLED.get(backend, ()))
        self.mark = 0

    # -- inputs ---------------------------------------------------------------
    def inp(self, name, *sizes, dt="float", lib=None, sym=None):
        """symbolic input array -> (abstract value, specification handle);
        sym: pair of axes (or of tuples of axes) in which the array is symmetric"""
        sizes = [lift(s) for s in sizes]
        dims = tuple(A.axis(s) for s in sizes)
        flat = [x for ax in A.free_idx(dims) for x in ax]
        if dt == "int":
            nf.INT_ARRAYS.add(name)
        nf.SYMMETRIC.pop(name, None)
        if sym:
            groups = [(g,) if isinstance(g, int) else tuple(g) for g in sym]
            pos = [tuple(sum(1 for q in sizes[:k] if q is not ONE) for k in g if sizes[k] is not ONE) for g in groups]
            if pos[0]:
                nf.SYMMETRIC[name] = [tuple(pos)]
        ref = self.I.new_arr(A.mk(dims, nf.mkel(name, flat), dt, lib or self.lib, root=frozenset({name})))
        return ref, Sym(name, sizes)

    def num(self, name, positive=False, kind="float"):
        p = nf.sym(name)
        if positive:
            nf.POSITIVE_SYMS.add(name)
        if kind == "int":
            nf.INT_ARRAYS.add(name)
        return mknum(p, kind)

    def size(self, p):
        return mknum(lift(p), "int")

    def fact(self, p):
        self.I.assume(lift(p))

    # -- running --------------------------------------------------------------
    def get(self, mod, *names):
        try:
            v = self.I.import_module(mod)
            for n in names:
                v = self.I.getattr(v, n)
        except AbsRaise as e:
            if e.exc in ("ModuleNotFoundError", "ImportError", "AttributeError") and not self.I.stack:
                raise Vanished(f"{mod}.{'.'.join(names)}: {e.exc} {e.msg}")
            raise
        return v

    def attr(self, o, name):
        return self.I.getattr(o, name)

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k)

    def run(self, src, **env):
        """interpret a client program written in the analysed language"""
        m = ModV("client", "<client>")
        m.ns["__name__"] = "client"
        m.ns.update(env)
        tree = ast.parse(src)
        for st in tree.body:
            if isinstance(st, ast.ImportFrom) and st.module.split(".")[0] == "MuyGPyS":
                for al in st.names:
                    self.check_name(st.module, al.name)
        self.I.stack.append(("<client program>", "client"))
        try:
            self.I.exec_block(tree.body, ModFrame(m))
        finally:
            self.I.stack.pop()
        return NS(m.ns)

    def check_name(self, mod, name):
        try:
            m = self.I.import_module(mod)
        except AbsRaise as e:
            if e.exc in ("ModuleNotFoundError",) and "MuyGPyS" in str(e.msg):
                raise Vanished(f"module {mod}")
            raise
        if isinstance(m, ModV) and name not in m.ns and self.I.modpath(mod + "." + name) is None:
            raise Vanished(f"{mod}.{name}")

    def array(self, v):
        """ArrC of an abstract result"""
        I = self.I
        v = I.resolve(v)
        if isinstance(v, TopV):
            raise Unknown("result: " + v.why)
        if isinstance(v, Ref):
            c = I.get(v)
            if isinstance(c, ArrC):
                return I.arr(v)
        if is_num(v):
            return A.scalar(num_poly(v))
        if isinstance(v, (tuple, list)) or isinstance(v, Ref) and c.kind == "list":
            raise Unknown("result is a container")
        if isinstance(v, PhiV):
            raise Unknown("result is one of several alternatives")
        return None


class NS:
    def __init__(self, d):
        self.d = d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)


def _get_list(self, ref, k=None):
    """items of an abstract list/tuple"""
    v = self.I.resolve(ref)
    items = list(v) if isinstance(v, tuple) else None
    if items is None:
        c = self.I.get(v) if isinstance(v, Ref) else None
        if c is None or c.kind != "list":
            raise Unknown("not a list of known length")
        items = c.items
    return items if k is None else items[k]


S.get_list = _get_list


def _places(I):
    """every variable, attribute and container slot that outlives a call: yields (slot, value, setter)"""
    seen = set()

    def walk(tag, d, get):
        for k, v in list(d.items()):
            yield (tag, k), v, lambda x, k=k: get().__setitem__(k, x)
            if isinstance(v, (ClsV, FnV)) and id(v) not in seen:
                seen.add(id(v))
                inner = v.ns if isinstance(v, ClsV) else v.attrs
                yield from walk((tag, k), inner, lambda inner=inner: inner)
    for name, m in list(I.modules.items()):
        if isinstance(m, ModV) and name.startswith("MuyGPyS"):
            yield from walk(name, m.ns, lambda m=m: m.ns)
    for i in list(I.h.m):
        c = I.h.m[i]
        field = FIELDS.get(type(c).__name__)
        if isinstance(c, ArrC) and not c.dims:
            yield (i, "value"), mknum(c.body), lambda x, i=i: setattr(I.h.mut(i), "body", num_poly(x))
        elif isinstance(c, SetC):
            yield (i, "size"), mknum(const(len(c.items)), "int"), None
        elif isinstance(c, GenC):
            yield (i, "at"), mknum(const(c.pos), "int"), None
        elif field:
            d = getattr(c, field)
            yield (i, "size"), mknum(const(len(d)), "int"), None
            yield from walk(i, dict(enumerate(d)) if field == "items" else d, lambda i=i, f=field: getattr(I.h.mut(i), f))


FIELDS = dict(ObjC="attrs", DictC="d", FrameC="vars", ListC="items")


def _numbers(self):
    """{slot: (number, setter)} of the numbers and container sizes kept between calls"""
    return {k: (v, g) for k, v, g in _places(self.I) if is_num(v) and not isinstance(v, bool)}


def _counters(self, call):
    """slots that two further calls each advance by the same constant: (those that can be set, the others)"""
    states = [_numbers(self)]
    for _ in range(2):
        call()
        states.append(_numbers(self))
    free, grow = [], []
    for k, (v, g) in states[2].items():
        if k in states[0] and k in states[1]:
            p = [num_poly(st[k][0]) for st in states]
            step = (p[1] - p[0]).const()
            if step and (p[2] - p[1]).const() == step:
                (grow if g is None else free).append((k, v, step, g))
    return free, grow


def _advance(self, free, by):
    """set every counter to its value after `by` more calls"""
    for _, v, step, put in free:
        put(mknum(num_poly(v) + const(step) * lift(by), v.kind if isinstance(v, Num) else "int"))


S.counters, S.advance = _counters, _advance
