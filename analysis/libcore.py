"""Models of Python built-ins and of the external libraries (numpy, torch,
jax, scipy, sklearn, mpi4py) used by the analysed code."""
from fractions import Fraction
from . import nf, arr as A
from .nf import ONE, ZERO, const, atom, subst, Poly, lift
from .values import *
from .arr import Unknown

INTERP = None


def _I():
    from . import interp
    return interp


def is_num(v):
    return isinstance(v, (bool, int, Num))


def npoly(v):
    return v.p if isinstance(v, Num) else lift(v)


def nkind(v):
    return v.kind if isinstance(v, Num) else ("bool" if isinstance(v, bool) else "int")


def nlib(v):
    return v.lib if isinstance(v, Num) else "py"


PREFIX = (("numpy", "np"), ("torch", "torch"), ("jax.numpy", "jax"), ("jax", "jax"))


def libof(path):
    for p, l in PREFIX:
        if path == p or path.startswith(p + "."):
            return l, path[len(p) + 1:]
    return None, path


# ------------------------------------------------------------------ wrapping
def W(I, c, lib=None):
    """wrap a computed array; numpy 0-d results are scalars"""
    lib = lib or c.lib
    if not c.dims and lib == "np":
        return Num(c.body, c.dt if c.dt in ("int", "bool") else "float", "np")
    return I.new_arr(c.with_(lib=lib, view=None, root=None))


def stopped(I, c):
    """the array as the gradient sees it behind a detaching operation: every followed input becomes another symbol"""
    if I.grad is None or c.dt != "float":
        return c

    def fn(a):
        if a.kind in ("el", "sym") and isinstance(a.args[0], str) and a.args[0].endswith("^"):
            n = a.args[0][:-1] + "°"
            if a.kind == "sym":
                return nf.sym(n)
            return nf.mkel(n, [nf.map_atoms(x, fn) for x in a.args[1]])
        return None
    return c.with_(body=nf.map_atoms(c.body, fn))


def followed(I, c):
    """the array as a trainable leaf: the followed scalars in it become live"""
    if I.grad is None:
        return c
    c = stopped(I, c)

    def fn(a):
        if a.kind == "sym" and a.args[0] in I.grad:
            return nf.sym(a.args[0] + "^")
        return None
    return c.with_(body=nf.map_atoms(c.body, fn))


def is_arr(I, v):
    return isinstance(v, Ref) and isinstance(I.get(v), ArrC)


def toarr(I, v, L="np"):
    """value -> ArrC (content)"""
    if is_num(v):
        return ArrC((), npoly(v), nkind(v), nlib(v) if nlib(v) != "py" else L)
    if isinstance(v, PhiV):
        v = I.resolve(v)
    if isinstance(v, PhiV):
        gs = [g for g, x in v.alts if x is not UNDEF]
        cs = [toarr(I, x, L) for _, x in v.alts if x is not UNDEF]
        c = I.merge_arr(gs, cs)
        if c is None:
            raise Unknown("alternatives of different shape")
        return c
    if isinstance(v, TopV):
        raise Unknown(v.why)
    if isinstance(v, Ref):
        c = I.get(v)
        if isinstance(c, ArrC):
            return I.arr(v)
        if isinstance(c, SymListC):
            return seq_arr(I, c.seq, L)
        if isinstance(c, ListC):
            return list_arr(I, c.items, L)
        if isinstance(c, ObjC):
            f = c.cls.find("__array__")[0] if isinstance(c.cls, ClsV) else None
            if f is not None:
                return toarr(I, I.call(BoundV(f, v), [], {}), L)
            raise AbsRaise("TypeError", f"{I.describe(v)} is not array-like", I.where())
        raise Unknown(f"array from {c.kind}")
    if isinstance(v, (SeqV,)):
        return seq_arr(I, v, L)
    if isinstance(v, RangeV):
        it = iterate(I, v)
        return seq_arr(I, it, L) if isinstance(it, SeqV) else list_arr(I, it, L)
    if isinstance(v, tuple):
        return list_arr(I, list(v), L)
    if v is None:
        raise AbsRaise("TypeError", "unsupported operand type: NoneType", I.where())
    if isinstance(v, (FnV, BoundV, ClsV, ModV, NativeV)):
        raise AbsRaise("TypeError", f"{v!r} is not array-like", I.where())
    raise Unknown(f"array from {v!r}"[:80])


def list_arr(I, items, L):
    if any(isinstance(x, _I().CondItem) for x in items):
        raise Unknown("array of conditional list")
    if not items:
        return ArrC(((ZERO,),), ZERO, "float", L)
    cs = [toarr(I, x, L) for x in items]
    n = len(cs[0].dims)
    if any(len(c.dims) != n for c in cs):
        raise AbsRaise("ValueError", "setting an array element with a sequence: inhomogeneous shape", I.where())
    for c in cs[1:]:
        for x, y in zip(c.dims, cs[0].dims):
            if A.sizeof(x) is not A.sizeof(y):
                raise AbsRaise("ValueError", "inhomogeneous shape", I.where())
    r = A.stack(cs, 0, L)
    return r


def seq_arr(I, seq, L):
    t = nf.tmp(seq.n)
    e = toarr(I, seq.get(atom(t)), L)
    ex = A.expand(e, 0)
    ax = A.axis(seq.n)
    if not ax:
        return ex.with_(body=subst(ex.body, {t: ZERO}), lib=L)
    dims = (ax,) + ex.dims[1:]
    return ArrC(dims, subst(ex.body, {t: atom(nf.free(0, 0, ax[0]))}), e.dt, L)


def dtype_of(v):
    if v is None:
        return None
    if isinstance(v, ExtV):
        n = v.path.rsplit(".", 1)[-1]
    elif isinstance(v, str):
        n = v
    else:
        return None
    if n.startswith(("float", "double", "half", "bfloat")):
        return "float"
    if n.startswith(("int", "uint", "long", "short", "intp")):
        return "int"
    if n.startswith("bool"):
        return "bool"
    return None


def cast(c, dt):
    if dt is None or dt == c.dt:
        return c
    if dt == "int" and c.dt == "float":
        return c.with_(body=nf.mkfn("int", c.body), dt="int", view=None)
    if dt == "bool" and c.dt != "bool":
        return c.with_(body=ONE - nf.mkeq(c.body, ZERO), dt="bool", view=None)
    return c.with_(dt=dt, view=None)


def tobool(p, kind):
    return p if kind == "bool" else ONE - nf.mkeq(p, ZERO)


# ---------------------------------------------------------------- sequences
def iterate(I, v):
    """-> python list | SeqV | None (unknown)"""
    v = I.resolve(v) if isinstance(v, PhiV) else v
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, RangeV):
        lo, hi, st = v.lo, v.hi, v.step
        if all(isinstance(x, int) for x in (lo, hi, st)):
            if len(range(lo, hi, st)) > 3000:
                return None
            return list(range(lo, hi, st))
        if isinstance(st, int) and st == 1:
            n = npoly(hi) - npoly(lo)
            return SeqV(n, lambda p: mknum(npoly(lo) + p, "int"), "range")
        return None
    if isinstance(v, SeqV):
        c = v.n.const()
        if c is not None and c <= 64:
            return [v.get(const(i)) for i in range(int(c))]
        return v
    if isinstance(v, Ref):
        c = I.get(v)
        k = c.kind
        if k == "list":
            return list(c.items)
        if k == "condlist":
            return list(c.items)
        if k == "symlist":
            return iterate(I, c.seq)
        if k == "gen":
            m = I.mut(v)
            items, pos = m.items, m.pos
            if isinstance(items, SeqV):
                return items
            m.pos = len(items)
            return list(items[pos:])
        if k == "dict":
            return [x if x not in c.conds else _I().CondItem(c.conds[x], x) for x in c.d]
        if k == "set":
            return list(c.items)
        if k == "arr":
            c = I.arr(v)
            if not c.dims:
                raise AbsRaise("TypeError", "iteration over a 0-d array", I.where())
            n = A.sizeof(c.dims[0])
            cn = n.const()
            if cn is not None and cn <= 64:
                return [getitem(I, v, int(i)) for i in range(int(cn))]
            return SeqV(n, lambda p: getitem(I, v, Num(p, "int")), "rows")
        if k == "obj":
            if isinstance(c.cls, ClsV):
                f, _ = c.cls.find("__iter__")
                if f is not None:
                    return iterate(I, I.call(BoundV(f, v), [], {}))
                g, _ = c.cls.find("__getitem__")
                ln, _ = c.cls.find("__len__")
                if g is not None and ln is not None:
                    n = I.call(BoundV(ln, v), [], {})
                    if isinstance(n, int):
                        return [I.call(BoundV(g, v), [i], {}) for i in range(n)]
                    return None
                if any(isinstance(b, ExtV) for b in c.cls.mro):
                    return None
            elif isinstance(c.cls, ExtV):
                return None
            raise AbsRaise("TypeError", f"{I.describe(v)} is not iterable", I.where())
        return None
    if v is None or is_num(v):
        raise AbsRaise("TypeError", f"{v!r} object is not iterable", I.where())
    return None


def length(I, v):
    if isinstance(v, PhiV):
        return I.split(v, lambda x: length(I, x))
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, TopV):
        return v
    if isinstance(v, RangeV):
        if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
            return len(range(v.lo, v.hi, v.step))
        if v.step == 1:
            return mknum(npoly(v.hi) - npoly(v.lo), "int")
        return I.top("len of range")
    if isinstance(v, SeqV):
        return mknum(v.n, "int")
    if isinstance(v, Ref):
        c = I.get(v)
        if c.kind == "list" or c.kind == "set":
            return len(c.items)
        if c.kind == "condlist":
            r = ZERO
            for x in c.items:
                r = r + (x.g if isinstance(x, _I().CondItem) else ONE)
            return mknum(r, "int")
        if c.kind == "philist":
            r = ZERO
            for g, x in zip(c.gs, c.cs):
                if not isinstance(x, ListC):
                    return I.top("len of joined list")
                r = r + g * const(len(x.items))
            return mknum(I.simp(r), "int")
        if c.kind == "dict":
            r = ZERO
            for x in c.d:
                r = r + c.conds.get(x, ONE)
            return mknum(r, "int")
        if c.kind == "symlist":
            return mknum(c.seq.n, "int")
        if c.kind == "arr":
            c = I.arr(v)
            if not c.dims:
                if c.lib == "jax":
                    raise Unknown("len of a 0-d jax array")
                raise AbsRaise("TypeError", "len() of unsized object", I.where())
            return mknum(A.sizeof(c.dims[0]), "int")
        if c.kind == "obj" and isinstance(c.cls, ClsV):
            f, _ = c.cls.find("__len__")
            if f is not None:
                return I.call(BoundV(f, v), [], {})
    if is_num(v) or v is None:
        raise AbsRaise("TypeError", "object has no len()", I.where())
    return I.top("len")


def hashable(I, k):
    if isinstance(k, PhiV):
        k = I.resolve(k)
    if isinstance(k, tuple):
        return tuple(hashable(I, x) for x in k)
    if isinstance(k, (str, int, bool, Num, ExtV)) or k is None:
        return k
    if isinstance(k, (ClsV, FnV, BoundV, BytesV)):
        return k
    if isinstance(k, Ref) and I.get(k).kind == "obj":
        for c in getattr(I.get(k).cls, "mro", ()):
            if isinstance(c, ClsV) and "__hash__" in c.ns:
                raise Unknown("key with a hash of its own")
            if isinstance(c, ClsV) and "__eq__" in c.ns:
                raise AbsRaise("TypeError", f"unhashable type: {c.name}", I.where())
        return k
    if isinstance(k, Ref) and I.get(k).kind == "arr":
        a = I.arr(k)
        if a.lib == "torch":
            return k            # tensors hash by identity
        if a.lib == "np" and not a.dims:
            return Num(a.body, a.dt)
    if isinstance(k, StrV):
        raise Unknown("formatted string as a key")
    if isinstance(k, Ref):
        raise AbsRaise("TypeError", "unhashable type", I.where())
    raise Unknown("dict key")


def keyeq(a, b):
    """condition under which two dictionary keys are equal"""
    if a is b:
        return ONE
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ZERO
        r = ONE
        for x, y in zip(a, b):
            r = r * keyeq(x, y)
            if r is ZERO:
                break
        return r
    if is_num(a) and is_num(b):
        return nf.mkeq(npoly(a), npoly(b))
    return ONE if type(a) is type(b) and a == b else ZERO


def lookup(I, c, key):
    """stored keys equal to `key`: list of (condition, stored key); the conditions exclude each other"""
    out, rest = [], ONE
    if key in c.d:
        g = I.simp(c.conds.get(key, ONE))
        out, rest = [(g, key)], I.simp(ONE - g)
    if isinstance(key, (tuple, Num)) and rest is not ZERO:
        for k2 in c.d:
            if isinstance(k2, (tuple, int, Num)) and k2 != key:
                g = I.simp(keyeq(k2, key))
                if g is not ZERO:
                    out.append((I.simp(rest * g * c.conds.get(k2, ONE)), k2))
                    rest = I.simp(rest * (ONE - g))
                    if rest is ZERO:
                        break
    return [(g, k2) for g, k2 in out if g is not ZERO]


def stored(I, c, hits, miss):
    """value under the matching key, else miss()"""
    rest, alts = ONE, []
    for g, k2 in hits:
        if g.const() == 1:
            return c.d[k2]
        alts.append((g, lambda k2=k2: c.d[k2]))
        rest = rest - g
    if not alts:
        return miss()
    return I.branch(alts + [(rest, miss)])


def store(I, o, key, v):
    hits = lookup(I, I.get(o), key)
    m = I.mut(o)
    if len(hits) == 1 and (hits[0][1] == key or hits[0][0].const() == 1):
        key, hits = hits[0][1], []
    rest = ONE
    for g, k2 in hits:
        m.d[k2] = I.merge_vals([g, ONE - g], [v, m.d[k2]])
        rest = rest - g
    m.d[key] = v
    m.conds.pop(key, None)
    if rest is not ONE:
        m.conds[key] = rest


def note_mut(I, ref):
    c = I.get(ref)
    if isinstance(c, ArrC):
        if c.root:
            for r in sorted(c.root):
                I.event("mutate", root=r)
    elif getattr(c, "origin", None):
        I.event("mutate", root=c.origin)


# ------------------------------------------------------------------ indexing
def conv_key(I, k):
    """-> (list of key items, basic?)"""
    items = list(k) if isinstance(k, tuple) else [k]
    out, basic = [], True
    for x in items:
        if isinstance(x, PhiV):
            x = I.resolve(x)
        if isinstance(x, TopV):
            raise Unknown("index: " + x.why)
        if x is None or x is Ellipsis:
            out.append(x)
        elif isinstance(x, ExtV) and x.path in ("builtins.Ellipsis",):
            out.append(Ellipsis)
        elif isinstance(x, bool) or (isinstance(x, Num) and x.kind == "bool"):
            raise Unknown("boolean scalar index")
        elif is_num(x):
            if nkind(x) == "float":
                raise AbsRaise("IndexError", "only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices", I.where())
            out.append(npoly(x))
        elif isinstance(x, Slice):
            out.append(conv_slice(I, x))
        else:
            c = toarr(I, x)
            if not c.dims and c.dt == "int":
                out.append(c.body)
            else:
                out.append(c)
                basic = False
    return out, basic


def conv_slice(I, s):
    def f(x):
        if isinstance(x, PhiV):
            x = I.resolve(x)
        if x is None:
            return None
        if is_num(x) and nkind(x) != "float":
            return npoly(x)
        if is_arr(I, x) and not I.arr(x).dims:
            return I.arr(x).body
        if is_num(x):
            raise AbsRaise("TypeError", "slice indices must be integers", I.where())
        raise Unknown("slice bound")
    return Slice(f(s.a), f(s.b), f(s.c))


def mkview(I, ref, kind, par, new):
    b = I.arr(ref)
    return I.new_arr(new.with_(root=b.root, view=(ref, kind, par, b), lib=b.lib, dt=b.dt))


def seq_index(I, items, k, what="list"):
    """index a python list of abstract items"""
    if isinstance(k, Slice):
        s = conv_slice(I, k)
        v = []
        for x in (s.a, s.b, s.c):
            if x is None:
                v.append(None)
            else:
                c = x.const()
                if c is None:
                    raise Unknown("symbolic slice of a list")
                v.append(int(c))
        return list(items[slice(*v)])
    if is_arr(I, k) and not I.arr(k).dims and I.arr(k).dt == "int":
        k = mknum(I.arr(k).body, "int")
    if is_num(k):
        if nkind(k) == "float":
            raise AbsRaise("TypeError", f"{what} indices must be integers", I.where())
        p = npoly(k)
        c = p.const()
        if c is not None:
            i = int(c)
            if i >= len(items) or i < -len(items):
                raise AbsRaise("IndexError", f"{what} index out of range", I.where())
            return items[i]
        # symbolic index into a list of known length
        n = len(items)
        if 0 < n <= 12:
            alts = [nf.mkeq(p, const(i)) for i in range(n)]
            return I.merge_vals(alts, list(items))
        raise Unknown("symbolic list index")
    if isinstance(k, TopV):
        raise Unknown(k.why)
    raise AbsRaise("TypeError", f"{what} indices must be integers or slices", I.where())


def getitem(I, o, k):
    if isinstance(o, PhiV):
        o = I.resolve(o)
    if isinstance(k, PhiV):
        k = I.resolve(k)
    if isinstance(o, PhiV):
        return I.split(o, lambda x: getitem(I, x, k))
    if isinstance(k, PhiV):
        return I.split(k, lambda x: getitem(I, o, x))
    if isinstance(o, TopV):
        return TopV((o.why + "[]")[:200])
    if isinstance(o, tuple):
        r = seq_index(I, list(o), k, "tuple")
        return tuple(r) if isinstance(k, Slice) else r
    if isinstance(o, str):
        r = seq_index(I, list(o), k, "string")
        return "".join(r) if isinstance(k, Slice) else r
    if isinstance(o, (SeqV,)):
        return seqv_index(I, o, k)
    if isinstance(o, RangeV):
        it = iterate(I, o)
        return seqv_index(I, it, k) if isinstance(it, SeqV) else seq_index(I, it, k)
    if isinstance(o, NativeV) and "__getitem__" in o.attrs:
        return I.call(o.attrs["__getitem__"], [k], {})
    if isinstance(o, (ExtV, ClsV)):
        return o  # typing subscripts
    if isinstance(o, Ref):
        c = I.get(o)
        if c.kind == "list":
            r = seq_index(I, c.items, k)
            return I.new_list(r) if isinstance(k, Slice) else r
        if c.kind == "symlist":
            return seqv_index(I, c.seq, k)
        if c.kind == "philist":
            alts = []
            for g, x in zip(c.gs, c.cs):
                if not isinstance(x, ListC):
                    raise Unknown("joined list")
                alts.append((g, (lambda x=x: seq_index(I, x.items, k))))
            return I.branch(alts)
        if c.kind == "condlist":
            raise Unknown("index of conditional list")
        if c.kind == "dict":
            kk = hashable(I, k)

            def bad():
                raise AbsRaise("KeyError", repr(kk), I.where())
            return stored(I, c, lookup(I, c, kk), bad)
        if c.kind == "arr":
            c = I.arr(o)
            key, basic = conv_key(I, k)
            new = A.getitem(c, key)
            if not new.dims and c.lib == "np":
                return Num(new.body, c.dt if c.dt in ("int", "bool") else "float", "np")
            if basic and c.lib != "jax":
                return mkview(I, o, "key", key, new)
            return I.new_arr(new.with_(root=None, view=None))
        if c.kind == "obj":
            if isinstance(c.cls, ClsV):
                f, _ = c.cls.find("__getitem__")
                if f is not None:
                    return I.call(BoundV(f, o), [k], {})
            else:
                return I.top("index of external object")
        if c.kind == "gen":
            raise AbsRaise("TypeError", "generator object is not subscriptable", I.where())
    raise AbsRaise("TypeError", f"{I.describe(o)} is not subscriptable", I.where())


def seqv_index(I, s, k):
    if isinstance(k, Slice):
        sl = conv_slice(I, k)
        if sl.c is None or sl.c is ONE:
            lo = A._bound(sl.a, s.n, ZERO)
            hi = A._bound(sl.b, s.n, s.n)
            return I.alloc(SymListC(SeqV(hi - lo, lambda p: s.get(lo + p), s.what)))
        raise Unknown("stepped slice")
    if is_num(k):
        p = npoly(k)
        c = p.const()
        if c is not None and c < 0:
            p = s.n + p
        return s.get(p)
    raise Unknown("sequence index")


def setitem(I, o, k, v):
    if isinstance(o, PhiV):
        o = I.resolve(o)
    if isinstance(k, PhiV):
        k = I.resolve(k)
    if isinstance(o, PhiV):
        return I.split(o, lambda x: setitem(I, x, k, v))
    if isinstance(k, PhiV):
        return I.split(k, lambda x: setitem(I, o, x, v))
    if isinstance(o, TopV):
        return
    if isinstance(o, Ref):
        c = I.get(o)
        if c.kind == "dict":
            kk = hashable(I, k)
            note_mut(I, o)
            store(I, o, kk, v)
            return
        if c.kind == "list":
            note_mut(I, o)
            if is_num(k) and npoly(k).const() is not None:
                i = int(npoly(k).const())
                if i >= len(c.items) or i < -len(c.items):
                    raise AbsRaise("IndexError", "list assignment index out of range", I.where())
                I.mut(o).items[i] = v
                return
            m = I.mut(o)
            m.items = [I.top("list item assigned at unknown index") for _ in m.items]
            return
        if c.kind == "arr":
            if c.lib == "jax":
                raise AbsRaise("TypeError", "JAX arrays are immutable", I.where())
            c = I.arr(o)
            note_mut(I, o)
            try:
                key, _ = conv_key(I, k)
                va = toarr(I, v, c.lib)
                if c.dt == "int" and va.dt == "float":
                    va = cast(va, "int")
                n = A.setitem(c, key, va)
                I._store_arr(o, n)
            except (Unknown, nf.Overflow) as u:
                I._store_arr(o, c.with_(body=nf.sym(f"top#{I._tn()} {u}")))
                I.taints.append(f"array store: {u} @ {I.where()}")
            return
        if c.kind == "obj" and isinstance(c.cls, ClsV):
            f, _ = c.cls.find("__setitem__")
            if f is not None:
                I.call(BoundV(f, o), [k, v], {})
                return
        if c.kind == "obj" and not isinstance(c.cls, ClsV):
            return
    raise AbsRaise("TypeError", f"{I.describe(o)} does not support item assignment", I.where())


def delitem(I, o, k):
    c = I.get(o)
    note_mut(I, o)
    if c.kind == "dict":
        kk = hashable(I, k)
        if kk not in c.d:
            raise AbsRaise("KeyError", repr(kk), I.where())
        m = I.mut(o)
        del m.d[kk]
        m.conds.pop(kk, None)
    elif c.kind == "list":
        i = npoly(k).const()
        if i is None:
            raise Unknown("del list item")
        del I.mut(o).items[int(i)]
    else:
        raise Unknown("del item")


def set_shape(I, o, v):
    c = I.arr(o)
    n = A.reshape(c, shape_of(I, [v]))
    I._store_arr(o, n.with_(root=c.root))


def shape_of(I, args):
    """shape arguments -> list of Poly / None (for -1)"""
    if len(args) == 1 and not is_num(args[0]):
        items = iterate(I, args[0])
        if items is None or isinstance(items, SeqV):
            raise Unknown("symbolic shape")
    else:
        items = list(args)
    out = []
    for x in items:
        if is_arr(I, x) and not I.arr(x).dims:
            x = mknum(I.arr(x).body, "int")
        if isinstance(x, PhiV):
            x = I.resolve(x)
        if not is_num(x):
            raise Unknown("shape entry")
        if nkind(x) == "float":
            raise AbsRaise("TypeError", "'float' object cannot be interpreted as an integer", I.where())
        if isinstance(x, int) and x == -1:
            out.append(None)
        else:
            out.append(npoly(x))
    return out
