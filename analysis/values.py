"""Abstract values and the abstract heap."""
from fractions import Fraction
from . import nf
from .nf import Poly, lift, const, ZERO, ONE


class AnalysisError(Exception):
    """The analysis itself is broken (missing anchor, unsupported construct)."""


class AbsRaise(Exception):
    """The analysed code definitely raises on every execution reaching here."""

    def __init__(self, exc, msg="", where=None):
        Exception.__init__(self, f"{exc}: {msg}")
        self.exc, self.msg, self.where = exc, msg, where


class TopV:
    """Unknown value."""
    __slots__ = ("why",)

    def __init__(self, why="?"):
        self.why = why

    def __repr__(self):
        return f"Top({self.why})"


class Undef:
    def __repr__(self):
        return "Undef"


UNDEF = Undef()


class Num:
    """Symbolic scalar.  kind: int | float | bool; lib: py | np | torch | jax"""
    __slots__ = ("p", "kind", "lib")

    def __init__(self, p, kind="float", lib="py"):
        self.p, self.kind, self.lib = p, kind, lib

    def __repr__(self):
        return f"Num({nf.show(self.p, 200)}:{self.kind})"

    def __eq__(self, o):
        return isinstance(o, Num) and o.p is self.p and o.kind == self.kind and o.lib == self.lib

    def __hash__(self):
        return hash((self.p, self.kind))


def mknum(p, kind="float", lib="py"):
    if lib == "py" and kind in ("int", "bool"):
        c = p.const()
        if c is not None and c.denominator == 1:
            return bool(c) if kind == "bool" else int(c)
    return Num(p, kind, lib)


class Slice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        return f"{self.a}:{self.b}:{self.c}"


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return f"&{self.id}"


class PhiV:
    """Guarded alternatives (exclusive guards) of values that have no common
    abstract representation."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Phi(" + "; ".join(f"{nf.show(g, 60)}→{v!r}" for g, v in self.alts) + ")"


class FnV:
    __slots__ = ("node", "env", "mod", "defaults", "kwdefaults", "name", "qual", "attrs", "cls")

    def __init__(self, node, env, mod, defaults, kwdefaults, name, qual, cls=None):
        self.node, self.env, self.mod = node, env, mod
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qual, self.cls = name, qual, cls
        self.attrs = {}

    def __repr__(self):
        return f"<fn {self.qual}>"


class BoundV:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.fn is self.fn and o.self_ == self.self_

    def __hash__(self):
        return hash((id(self.fn), self.self_))

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.self_!r}>"


class ClsV:
    def __init__(self, name, bases, ns, mod, node=None):
        self.name, self.bases, self.ns, self.mod, self.node = name, bases, ns, mod, node
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        seqs = [list(b.mro) if isinstance(b, ClsV) else [b] for b in self.bases] + [list(self.bases)]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError(f"inconsistent MRO for {self.name}")
            out.append(h)
            for s in seqs:
                if s[0] is h or s[0] == h:
                    s.pop(0)

    def find(self, attr, start=None):
        mro = self.mro
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if isinstance(c, ClsV) and attr in c.ns:
                return c.ns[attr], c
        return None, None

    @property
    def qual(self):
        return f"{self.mod.name}.{self.name}" if self.mod else self.name

    def __repr__(self):
        return f"<class {self.name}>"


class ModV:
    def __init__(self, name, path=None):
        self.name, self.path, self.ns = name, path, {}

    def __repr__(self):
        return f"<module {self.name}>"


class ExtV:
    """A name from an external library, identified by dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return f"<ext {self.path}>"


class NativeV:
    """Analyser-side model: fn(interp, args, kwargs) -> value"""
    __slots__ = ("fn", "name", "attrs")

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn, self.attrs = name, fn, attrs or {}

    def __repr__(self):
        return f"<native {self.name}>"


class PropV:
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class BytesV:
    """the bytes of an array's contents"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, BytesV) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class CachedV(PropV):
    """functools.cached_property: computed once, kept in the instance"""
    __slots__ = ()


class StaticV:
    __slots__ = ("fn", "kind")

    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class SuperV:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class RangeV:
    """range with possibly symbolic bounds (ints are raw or Num)"""
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f"range({self.lo},{self.hi},{self.step})"


class SeqV:
    """A sequence of symbolic length: element template over index atom.
    getter: Poly index -> value"""
    __slots__ = ("n", "get", "what")

    def __init__(self, n, get, what="seq"):
        self.n, self.get, self.what = n, get, what

    def __repr__(self):
        return f"<{self.what} of length {nf.show(self.n, 60)}>"


class StrV:
    """A string whose text is not tracked (formatted)."""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"str{self.parts}"


# ---- heap contents ---------------------------------------------------------
class ListC:
    __slots__ = ("items", "origin")
    kind = "list"

    def __init__(self, items, origin=None):
        self.items = items
        self.origin = origin

    def copy(self):
        return ListC(list(self.items), self.origin)


class DictC:
    __slots__ = ("d", "origin", "conds")
    kind = "dict"

    def __init__(self, d, origin=None, conds=None):
        self.d = d          # key -> value
        self.origin = origin
        self.conds = conds or {}  # key -> presence guard (absent means always)

    def copy(self):
        return DictC(dict(self.d), self.origin, dict(self.conds))


class SetC:
    __slots__ = ("items",)
    kind = "set"

    def __init__(self, items):
        self.items = items

    def copy(self):
        return SetC(list(self.items))


class ObjC:
    __slots__ = ("cls", "attrs", "origin")
    kind = "obj"

    def __init__(self, cls, attrs=None, origin=None):
        self.cls, self.attrs, self.origin = cls, attrs if attrs is not None else {}, origin

    def copy(self):
        return ObjC(self.cls, dict(self.attrs), self.origin)


class ObjDictC(DictC):
    """the __dict__ of an object: reads and writes go to the object"""
    __slots__ = ("I", "owner")

    def __init__(self, I, owner):
        self.I, self.owner, self.origin, self.conds = I, owner, None, {}

    @property
    def d(self):
        return self.I.mut(self.owner).attrs

    @d.setter
    def d(self, v):
        self.I.mut(self.owner).attrs = v

    def copy(self):
        return self


class AliasC(ObjC):
    """an object that was given the __dict__ of another one"""
    __slots__ = ("I", "owner")

    def __init__(self, cls, I, owner):
        self.cls, self.origin, self.I, self.owner = cls, None, I, owner

    @property
    def attrs(self):
        return self.I.mut(self.owner).attrs

    @attrs.setter
    def attrs(self, v):
        self.I.mut(self.owner).attrs = v

    def copy(self):
        return self


class FrameC:
    __slots__ = ("vars", "parent", "names")
    kind = "frame"

    def __init__(self, parent, names):
        self.vars, self.parent, self.names = {}, parent, names

    def copy(self):
        f = FrameC(self.parent, self.names)
        f.vars = dict(self.vars)
        return f


class GenC:
    """generator / iterator: remaining items list (concrete) or SeqV"""
    __slots__ = ("items", "pos")
    kind = "gen"

    def __init__(self, items, pos=0):
        self.items, self.pos = items, pos

    def copy(self):
        return GenC(self.items, self.pos)


class SymListC:
    """list with symbolic length (result of appending in a summarised loop)"""
    __slots__ = ("seq",)
    kind = "symlist"

    def __init__(self, seq):
        self.seq = seq

    def copy(self):
        return SymListC(self.seq)


class ArrC:
    """dims: tuple of axes, each a tuple of factor sizes (Poly != 1)."""
    __slots__ = ("dims", "body", "dt", "lib", "root", "view", "src", "tag")
    kind = "arr"

    def __init__(self, dims, body, dt="float", lib="np", root=None, view=None, src=None, tag=None):
        self.dims, self.body, self.dt, self.lib = dims, body, dt, lib
        self.root, self.view, self.src, self.tag = root, view, src, tag

    def copy(self):
        return ArrC(self.dims, self.body, self.dt, self.lib, self.root, self.view, self.src, self.tag)

    def with_(self, **kw):
        a = self.copy()
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def __repr__(self):
        ds = ",".join("·".join(nf.show(f) for f in ax) or "1" for ax in self.dims)
        return f"Arr<{ds}>({nf.show(self.body, 400)})"


class Heap:
    """copy-on-write map id -> content"""
    __slots__ = ("m", "own")

    def __init__(self, m=None):
        self.m = m if m is not None else {}
        self.own = set(self.m) if m is None else set()

    def fork(self):
        h = Heap(dict(self.m))
        self.own = set()
        return h

    def get(self, i):
        return self.m[i]

    def mut(self, i):
        c = self.m[i]
        if i not in self.own:
            c = c.copy()
            self.m[i] = c
            self.own.add(i)
        return c

    def put(self, i, c):
        self.m[i] = c
        self.own.add(i)
