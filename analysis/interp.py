"""Flow-sensitive, interprocedural abstract interpreter for the Python subset
used by the repository.

The abstract state maps every variable, attribute and container slot to an
abstract value (values.py); numeric values are normal forms (nf.py).  Control
flow joins merge both states with a gate (gated single assignment); nothing is
executed on concrete data, no path is enumerated or handed to a solver.
"""
import ast
import os
import sys
from . import nf
from .nf import ONE, ZERO, const, atom, subst, Poly
from .values import *
from . import arr as A
from .arr import Unknown

sys.setrecursionlimit(20000)

BUILTINS = set("""abs all any bool bytes callable classmethod complex dict dir divmod enumerate Exception filter float
format frozenset getattr hasattr hash id input int isinstance issubclass iter len list map max min next object open ord
pow print property range repr reversed round set setattr slice sorted staticmethod str sum super tuple type vars zip
BaseException ValueError TypeError KeyError IndexError NotImplementedError RuntimeError AttributeError ImportError
ModuleNotFoundError AssertionError StopIteration ZeroDivisionError Warning DeprecationWarning UserWarning
FutureWarning RuntimeWarning ArithmeticError LookupError OverflowError NameError UnboundLocalError RecursionError
OSError IOError NotImplemented Ellipsis __import__ delattr globals locals chr bytearray memoryview
FileNotFoundError KeyboardInterrupt SystemExit""".split())


class Sig:
    __slots__ = ("kind", "v")

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


BRK, CONT = Sig("brk"), Sig("cont")


class Multi(Sig):
    """leaves: list of (guard, sig-or-None, heap)"""
    __slots__ = ("leaves",)

    def __init__(self, leaves):
        self.kind, self.leaves = "multi", leaves


_scope_cache = {}


def scope(node):
    """-> (local names, globals, nonlocals, has_yield)"""
    r = _scope_cache.get(node)
    if r is not None:
        return r
    loc, glo, non = set(), set(), set()
    hy = [False]

    def target(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            visit(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    target(w.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            hy[0] = True
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.Import):
            for a in n.names:
                loc.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                loc.add(a.asname or a.name)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    a = getattr(node, "args", None)
    if isinstance(a, ast.arguments):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
    loc -= glo | non
    r = (frozenset(loc), frozenset(glo), frozenset(non), hy[0])
    _scope_cache[node] = r
    return r


_ast_cache = {}


class Interp:
    MAXDEPTH = 90

    def __init__(self, src, backend="numpy", ftype="64", world=None, enabled=()):
        self.src = src
        self.backend, self.ftype = backend, ftype
        self.world = world  # (rank, size) under MPI
        self.gathers, self.gathered = [], None  # contributions of this rank / of all ranks to each allgather
        self.outbox, self.inbox = [], None  # point-to-point messages of this rank
        self.enabled = set(enabled)
        self.modules = {}
        self.h = Heap()
        self.n = 0
        self.facts = {}
        self.pc = []
        self.events = []
        self.calls = 0
        self.fnseen = set()
        self.stack = []
        self.frames = []
        self.overrides = {}
        self.depth = {}
        self.trydepth = 0
        self.analysed = set()
        self.taints = []
        self.fuel = 4000000
        self.line = None
        from . import lib
        self.lib = lib
        self.exc_current = []
        self.grad = None  # names of the scalars whose gradient is followed (None: not followed)
        self.nograd = 0
        self.roots = []  # arguments of square roots met while gradients are followed

    # ------------------------------------------------------------------ misc
    def alloc(self, content):
        self.n += 1
        self.h.put(self.n, content)
        return Ref(self.n)

    def get(self, ref):
        return self.h.get(ref.id)

    def mut(self, ref):
        return self.h.mut(ref.id)

    def new_list(self, items):
        return self.alloc(ListC(list(items)))

    def new_dict(self, d=None):
        return self.alloc(DictC(dict(d or {})))

    def new_arr(self, c):
        if self.nograd and isinstance(c, ArrC):
            c = self.lib.stopped(self, c)
        return self.alloc(c)

    def where(self):
        f = self.stack[-1] if self.stack else ("<top>", "")
        return f"{f[1]}:{self.line} in {f[0]}"

    def top(self, why):
        t = TopV(f"{why} @ {self.where()}")
        return t

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw["where"] = self.where()
        kw["pc"] = self.path()
        kw["stack"] = [s[0] for s in self.stack]
        self.events.append(kw)

    def path(self):
        r = ONE
        for g in self.pc:
            r = r * g
        return r

    def topguard(self, why):
        self.n += 1
        self.taints.append(f"{why} @ {self.where()}")
        return nf.mkbool(f"top#{self.n} {why}")

    # ------------------------------------------------------------ facts/forks
    def simp(self, p):
        """simplify an indicator polynomial under the current facts"""
        for _ in range(3):
            q = p
            for a in nf._bools(p):
                if a in self.facts:
                    p = nf.cofactor(p, a, self.facts[a])
            if p is q:
                break
        return p

    def simp_deep(self, p):
        if not self.facts:
            return p
        f = self.facts

        def fn(a):
            if a.isbool and a in f:
                return ONE if f[a] else ZERO
            return None
        try:
            return nf.map_atoms(p, fn)
        except nf.Overflow:
            return p

    def assume(self, g):
        """record that indicator g is 1; returns the undo token"""
        old = self.facts
        new = dict(old)
        c = g.const()
        if c is None and len(g.terms) == 1:
            (m, co), = g.terms.items()
            if co == 1:
                for a, _ in m.factors:
                    if a.isbool:
                        new[a] = 1
        ng = ONE - g
        if c is None and len(ng.terms) == 1:
            (m, co), = ng.terms.items()
            if co == 1 and len(m.factors) == 1 and m.factors[0][0].isbool:
                new[m.factors[0][0]] = 0
        if c is None and len(g.terms) > 1:
            # product of literals given as polynomial: try each atom
            for a in nf._bools(g):
                if a in new:
                    continue
                if nf.cofactor(g, a, 0).const() == 0:
                    new[a] = 1
                elif nf.cofactor(g, a, 1).const() == 0:
                    new[a] = 0
        self.facts = new
        return old

    def branch(self, alts):
        """alts: list of (guard, thunk).  Runs each thunk in its own fork and
        joins.  Returns the merged value; raises AbsRaise if all raise."""
        base = self.h
        facts = self.facts
        res = []
        raised = []
        for g, th in alts:
            g = self.simp(g)
            if g.const() == 0:
                continue
            self.h = base.fork()
            self.assume(g)
            self.pc.append(g)
            try:
                v = th()
                res.append((g, v, self.h))
            except AbsRaise as e:
                self.note_raise(e)
                raised.append((g, e))
            finally:
                self.pc.pop()
                self.facts = facts
        self.h = base
        if not res:
            if raised:
                raise raised[-1][1]
            raise AbsRaise("Unreachable", "no feasible alternative")
        for g, _ in raised:
            self.assume(ONE - g)
        return self.join(base, res)

    def note_raise(self, e):
        self.events.append(dict(kind="raise", exc=e.exc, msg=e.msg, where=e.where or self.where(), pc=self.path(),
                                stack=[s[0] for s in self.stack], facts=dict(self.facts)))

    def join(self, base, res):
        """res: list (guard, value, heap): merge heaps into self.h and values"""
        if len(res) == 1:
            self.h = res[0][2]
            return res[0][1]
        gs = [g for g, _, _ in res]
        # exclusive guards; make the last one the complement
        tot = ZERO
        for g in gs[:-1]:
            tot = tot + g
        gs[-1] = ONE - tot
        hs = [h for _, _, h in res]
        m = Heap(dict(hs[0].m))
        for h in hs[1:]:
            for k, c in h.m.items():
                if k not in m.m:
                    m.m[k] = c
        self.h = m
        common = set(base.m)
        for k in common:
            cs = [h.m.get(k) for h in hs]
            if any(c is None for c in cs):
                if k in m.m and all(c is None for c in cs):
                    del m.m[k]
                continue
            c0 = cs[0]
            if all(c is c0 for c in cs):
                continue
            m.m[k] = self.merge_content(gs, cs)
            m.own.add(k)
        return self.merge_vals(gs, [v for _, v, _ in res])

    def merge_content(self, gs, cs):
        c0 = cs[0]
        if isinstance(c0, FrameC):
            f = FrameC(c0.parent, c0.names)
            for n in {n for c in cs for n in c.vars}:
                f.vars[n] = self.merge_vals(gs, [c.vars.get(n, UNDEF) for c in cs])
            return f
        if isinstance(c0, ObjC):
            o = ObjC(c0.cls, {}, c0.origin)
            names = []
            for c in cs:
                for n in c.attrs:
                    if n not in names:
                        names.append(n)
            for n in names:
                o.attrs[n] = self.merge_vals(gs, [c.attrs.get(n, UNDEF) for c in cs])
            return o
        if isinstance(c0, ListC):
            if all(isinstance(c, ListC) and len(c.items) == len(c0.items) for c in cs):
                return ListC([self.merge_vals(gs, list(t)) for t in zip(*[c.items for c in cs])], c0.origin)
            return ListC([self.top("lists of different length merged")], c0.origin) if False else _PhiList(gs, cs)
        if isinstance(c0, DictC):
            keys = []
            for c in cs:
                for k in c.d:
                    if k not in keys:
                        keys.append(k)
            d, conds = {}, {}
            for k in keys:
                have = [(g, c.d[k], c.conds.get(k, ONE)) for g, c in zip(gs, cs) if k in c.d]
                cond = ZERO
                for g, _, cc in have:
                    cond = cond + g * cc
                d[k] = self.merge_vals([g for g, _, _ in have], [v for _, v, _ in have]) if len(have) > 1 else have[0][1]
                if cond is not ONE:
                    conds[k] = cond
            return DictC(d, c0.origin, conds)
        if isinstance(c0, ArrC):
            return self.merge_arr(gs, cs) or c0.with_(body=nf.sym(f"top#{self._tn()}"))
        if isinstance(c0, SetC):
            items = []
            for c in cs:
                for x in c.items:
                    if x not in items:
                        items.append(x)
            return SetC(items)
        return c0

    def _tn(self):
        self.n += 1
        return self.n

    def merge_arr(self, gs, cs):
        c0 = cs[0]
        if any(len(c.dims) != len(c0.dims) for c in cs):
            return None
        try:
            for c in cs:
                for x, y in zip(c.dims, c0.dims):
                    if A.sizeof(x) is not A.sizeof(y):
                        return None
            bodies = []
            for c in cs:
                if c.dims != c0.dims:
                    f = A.free_idx(c0.dims)
                    idx = [f[i] if x == y else A.split_index(A.flat(y, f[i]), x) for i, (x, y) in enumerate(zip(c.dims, c0.dims))]
                    bodies.append(A.at(c, idx))
                else:
                    bodies.append(c.body)
            body = ZERO
            for g, b in zip(gs, bodies):
                body = body + g * b
            dt = c0.dt
            for c in cs:
                dt = A.promote_dt(dt, c.dt)
            return c0.with_(body=body, dt=dt, view=c0.view if all(c.view is c0.view for c in cs) else None)
        except (AbsRaise, Unknown, nf.Overflow):
            return None

    def merge_vals(self, gs, vs):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        try:
            if all(type(v) is type(v0) and v == v0 for v in vs):
                return v0
        except Exception:
            pass
        # drop undefined alternatives
        live = [(g, v) for g, v in zip(gs, vs) if v is not UNDEF]
        if len(live) < len(vs):
            if len(live) == 1:
                return PhiV([(live[0][0], live[0][1]), (ONE - live[0][0], UNDEF)])
            return PhiV([(g, v) for g, v in zip(gs, vs)])
        if any(isinstance(v, TopV) for v in vs):
            return next(v for v in vs if isinstance(v, TopV))
        if all(is_num(v) for v in vs):
            kinds = {num_kind(v) for v in vs}
            if kinds == {"bool"}:
                k = "bool"
            elif "float" in kinds:
                k = "float"
            else:
                k = "int"
            if not ("bool" in kinds and len(kinds) > 1):
                libs = {v.lib for v in vs if isinstance(v, Num)}
                p = ZERO
                for g, v in zip(gs, vs):
                    p = p + g * num_poly(v)
                return mknum(p, k, libs.pop() if len(libs) == 1 and all(isinstance(v, Num) for v in vs) else "py")
        if all(isinstance(v, tuple) and len(v) == len(v0) for v in vs) if isinstance(v0, tuple) else False:
            return tuple(self.merge_vals(gs, list(t)) for t in zip(*vs))
        if all(isinstance(v, Ref) for v in vs):
            cs = [self.get(v) for v in vs]
            if all(isinstance(c, ArrC) for c in cs):
                c = self.merge_arr(gs, cs)
                if c is not None:
                    roots = frozenset().union(*[c.root or frozenset() for c in cs])
                    return self.new_arr(c.with_(view=None, root=roots or None))
            elif all(isinstance(c, ListC) and len(c.items) == len(cs[0].items) for c in cs):
                return self.new_list([self.merge_vals(gs, list(t)) for t in zip(*[c.items for c in cs])])
            elif all(isinstance(c, DictC) and not c.origin for c in cs):
                return self.alloc(self.merge_content(gs, cs))
        if all(isinstance(v, BoundV) and v.fn is v0.fn for v in vs) if isinstance(v0, BoundV) else False:
            return BoundV(v0.fn, self.merge_vals(gs, [v.self_ for v in vs]))
        alts = []
        for g, v in zip(gs, vs):
            if isinstance(v, PhiV):
                for g2, v2 in v.alts:
                    alts.append((g * g2, v2))
            else:
                alts.append((g, v))
        out = []
        for g, v in alts:
            if g.const() == 0:
                continue
            for i, (g2, v2) in enumerate(out):
                if type(v2) is type(v) and (v2 is v or _safe_eq(v2, v)):
                    out[i] = (g2 + g, v2)
                    break
            else:
                out.append((g, v))
        if len(out) == 1:
            return out[0][1]
        if len(out) > 24:
            return self.top("too many alternatives")
        # numeric alternatives inside a mixed phi are grouped
        return PhiV(out)

    def split(self, phi, fn):
        alts = []
        for g, v in phi.alts:
            if v is UNDEF:
                g = self.simp(g)
                if g.const() == 0:
                    continue

                def bad():
                    raise AbsRaise("UnboundLocalError", "variable may be unbound", self.where())
                alts.append((g, bad))
                continue
            alts.append((g, (lambda v=v: fn(v))))
        live = [(self.simp(g), t) for g, t in alts]
        live = [(g, t) for g, t in live if g.const() != 0]
        if len(live) == 1:
            return live[0][1]()
        return self.branch(live)

    def resolve(self, v):
        """drop infeasible alternatives of a phi under the current facts"""
        if isinstance(v, PhiV):
            alts = [(self.simp(g), x) for g, x in v.alts]
            alts = [(g, x) for g, x in alts if g.const() != 0]
            if len(alts) == 1 and alts[0][1] is not UNDEF:
                return alts[0][1]
            if len(alts) < len(v.alts):
                return PhiV(alts)
        return v

    # ----------------------------------------------------------------- truth
    def truth(self, v):
        """-> bool or indicator Poly"""
        if isinstance(v, Num):
            p = v.p
            r = self.simp(p) if v.kind == "bool" else self.simp(ONE - nf.mkeq(p, ZERO))
            c = r.const()
            return bool(c) if c is not None else r
        if isinstance(v, PhiV):
            r = ZERO
            for g, x in v.alts:
                if x is UNDEF:
                    continue
                t = self.truth(x)
                r = r + g * (nf.lift(t) if isinstance(t, bool) else t)
            r = self.simp(r)
            c = r.const()
            return bool(c) if c is not None else r
        if isinstance(v, TopV):
            return self.topguard(v.why)
        if isinstance(v, StrV):
            return True
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, ListC):
                return len(c.items) > 0
            if isinstance(c, DictC):
                if c.conds:
                    r = ONE
                    for k in c.d:
                        r = r * (ONE - c.conds.get(k, ONE))
                    r = self.simp(ONE - r)
                    cc = r.const()
                    return bool(cc) if cc is not None else r
                return len(c.d) > 0
            if isinstance(c, SetC):
                return len(c.items) > 0
            if isinstance(c, SymListC):
                t = nf.mkgt(c.seq.n)
                return bool(t.const()) if t.const() is not None else t
            if isinstance(c, ArrC):
                c = self.arr(v)
                if all(not ax for ax in c.dims):
                    p = A.at(c, [[] for _ in c.dims])
                    return self.truth(Num(p, c.dt if c.dt == "bool" else "float"))
                raise AbsRaise("ValueError", "The truth value of an array with more than one element is ambiguous", self.where())
            if isinstance(c, ObjC):
                for nm in ("__bool__", "__len__"):
                    f, _ = c.cls.find(nm)
                    if f is not None:
                        return self.truth(self.call(BoundV(f, v), [], {}))
                return True
            return True
        if isinstance(v, SeqV):
            t = nf.mkgt(v.n)
            return bool(t.const()) if t.const() is not None else t
        if isinstance(v, RangeV):
            return self.truth(self.lib.length(self, v))
        if isinstance(v, (FnV, BoundV, ClsV, ModV, ExtV, NativeV)):
            return True
        return bool(v)

    def cond(self, v, then, other):
        """value-level conditional on truth(v)"""
        t = self.truth(v)
        if t is True:
            return then()
        if t is False:
            return other()
        return self.branch([(t, then), (ONE - t, other)])

    # ---------------------------------------------------------------- modules
    def modpath(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q if os.path.exists(q) else None
        return p + ".py" if os.path.exists(p + ".py") else None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        root = name.split(".")[0]
        if root != "MuyGPyS":
            return ExtV(name)
        stub = self.lib.stub_module(self, name)
        if stub is not None:
            self.modules[name] = stub
            self._bind_parent(name, stub)
            return stub
        path = self.modpath(name)
        if path is None:
            raise AbsRaise("ModuleNotFoundError", name, self.where())
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = ModV(name, path)
        m.ns["__name__"] = name
        m.ns["__package__"] = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        m.ns["__file__"] = path
        self.modules[name] = m
        tree = _ast_cache.get(path)
        if tree is None:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
            _ast_cache[path] = tree
        self.analysed.add(path)
        saved = (self.line,)
        self.stack.append((f"<module {name}>", os.path.relpath(path, os.path.dirname(self.src))))
        try:
            sig = self.exec_block(tree.body, ModFrame(m))
        except AbsRaise:
            del self.modules[name]
            raise
        finally:
            self.stack.pop()
            self.line, = saved
        self._bind_parent(name, m)
        return m

    def _bind_parent(self, name, m):
        if "." in name:
            pn, cn = name.rsplit(".", 1)
            if pn in self.modules:
                self.modules[pn].ns[cn] = m

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        i = 0
        n = len(stmts)
        while i < n:
            s = stmts[i]
            sig = self.exec_stmt(s, fr)
            i += 1
            if sig is None:
                continue
            if not isinstance(sig, Multi):
                return sig
            normals = [(g, None, h) for g, sg, h in sig.leaves if sg is None]
            others = [(g, sg, h) for g, sg, h in sig.leaves if sg is not None]
            if not normals:
                return sig
            gN = ZERO
            for g, _, _ in normals:
                gN = gN + g
            base = self._basefor(sig)
            if len(normals) == 1:
                self.h = normals[0][2].fork()
            else:
                # guards relative to the union
                self.join(base, [(g, None, h) for g, _, h in normals])
            facts = self.facts
            pushed = False
            if others:
                self.assume(gN)
                self.pc.append(gN)
                pushed = True
            try:
                rest = self.exec_block(stmts[i:], fr)
            except AbsRaise as e:
                if not others:
                    raise
                self.note_raise(e)
                rest = "raised"
            finally:
                if pushed:
                    self.pc.pop()
                    self.facts = facts
            if rest == "raised":
                self.assume(ONE - gN)
                return Multi(others) if len(others) > 1 else self._single(others[0])
            if not others:
                return rest
            if isinstance(rest, Multi):
                return Multi(others + [(gN * g, sg, h) for g, sg, h in rest.leaves])
            return Multi(others + [(gN, rest, self.h)])
        return None

    def _single(self, leaf):
        self.h = leaf[2].fork()
        return leaf[1]

    def _basefor(self, sig):
        """ids common to all leaves"""
        ks = None
        for _, _, h in sig.leaves:
            ks = set(h.m) if ks is None else ks & set(h.m)
        return Heap({k: None for k in ks})

    def run_branches(self, alts):
        """alts: (guard, thunk->sig).  Returns a signal for the join."""
        base = self.h
        facts = self.facts
        leaves, raised = [], []
        for g, th in alts:
            self.h = base.fork()
            self.assume(g)
            self.pc.append(g)
            try:
                sig = th()
                if isinstance(sig, Multi):
                    leaves += [(g * g2, s2, h2) for g2, s2, h2 in sig.leaves]
                else:
                    leaves.append((g, sig, self.h))
            except AbsRaise as e:
                self.note_raise(e)
                raised.append((g, e))
            finally:
                self.pc.pop()
                self.facts = facts
        self.h = base
        if not leaves:
            raise raised[-1][1]
        for g, _ in raised:
            self.assume(ONE - g)
        if raised:
            # guards are relative to "not raised"
            leaves = [(self.simp(g), s, h) for g, s, h in leaves]
            leaves = [l for l in leaves if l[0].const() != 0] or leaves
        if len(leaves) == 1:
            return self._single(leaves[0])
        if all(s is None for _, s, _ in leaves):
            self.join(base, [(g, None, h) for g, _, h in leaves])
            return None
        return Multi(leaves)

    def exec_stmt(self, s, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise AnalysisError("analysis budget exhausted")
        self.line = getattr(s, "lineno", self.line)
        return getattr(self, "s_" + type(s).__name__, self.s_unsupported)(s, fr)

    def s_unsupported(self, s, fr):
        raise AnalysisError(f"unsupported statement {type(s).__name__} at {self.where()}")

    def s_Pass(self, s, fr):
        return None

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, fr)
        return None

    def s_Return(self, s, fr):
        return Sig("ret", self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        return BRK

    def s_Continue(self, s, fr):
        return CONT

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                root = a.name.split(".")[0]
                self.store_name(root, self.import_module(root), fr)
        return None

    def s_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            pkg = fr.mod.ns["__package__"]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModV):
                    al = m.ns.get("__all__")
                    names = self.lib.iterate(self, al) if al is not None else [k for k in m.ns if not k.startswith("_")]
                    for k in names:
                        self.store_name(k, m.ns[k], fr)
                continue
            if isinstance(m, ModV):
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    try:
                        v = self.import_module(name + "." + a.name)
                    except AbsRaise:
                        raise AbsRaise("ImportError", f"cannot import name {a.name!r} from {name!r}", self.where())
            else:
                v = self.lib.ext_attr(self, m, a.name)
            self.store_name(a.asname or a.name, v, fr)
        return None

    def s_FunctionDef(self, s, fr):
        v = self.make_fn(s, fr, s.name)
        for d in reversed(s.decorator_list):
            self.line = d.lineno
            v = self.apply_decorator(self.ev(d, fr), v)
        self.store_name(s.name, v, fr)
        return None

    def apply_decorator(self, d, v):
        if isinstance(d, ExtV):
            if d.path == "builtins.property":
                return PropV(v)
            if d.path in ("builtins.staticmethod", "builtins.classmethod"):
                return StaticV(v, d.path.rsplit(".")[-1])
        if isinstance(d, NativeV) and d.name == "setter":
            return d.fn(self, [v], {})
        return self.call(d, [v], {})

    def make_fn(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        env = fr.ref if isinstance(fr, Frame) else None
        if isinstance(fr, ClassFrame):
            env = fr.outer.ref if isinstance(fr.outer, Frame) else None
        f = fr
        while f is not None:
            if isinstance(f, Frame):
                f.captured = True
            f = f.outer if isinstance(f, ClassFrame) else getattr(f, "parentframe", None)
        qual = self.qualname(fr, name)
        cls = fr if isinstance(fr, ClassFrame) else getattr(fr, "clsframe", None)
        return FnV(node, env, fr.mod, defaults, kwd, name, qual, cls)

    def qualname(self, fr, name):
        q = getattr(fr, "qual", None)
        return f"{q}.{name}" if q else f"{fr.mod.name}.{name}"

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, ExtV) and b.path == "builtins.object")]
        cf = ClassFrame(fr, self.qualname(fr, s.name))
        self.exec_block(s.body, cf)
        c = ClsV(s.name, bases, cf.ns, fr.mod, s)
        cf.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(self.ev(d, fr), v)
        self.store_name(s.name, v, fr)
        return None

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return None

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        return None

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            rhs = self.ev(s.value, fr)
            r = self.augop(op, cur, rhs)
            self.store_name(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            rhs = self.ev(s.value, fr)
            self.setattr(o, t.attr, self.augop(op, cur, rhs))
        else:
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            rhs = None
            c = self.get(o) if isinstance(o, Ref) else None
            kc = self.get(k) if isinstance(k, Ref) else None
            if isinstance(c, ArrC) and isinstance(kc, ArrC) and kc.dt == "bool" and len(kc.dims) == len(c.dims) and c.lib != "jax":
                # masked update of a whole array by a scalar
                rhs = self.ev(s.value, fr)
                if isinstance(rhs, (Num, int, float)) or isinstance(rhs, Ref) and isinstance(self.get(rhs), ArrC) and not self.get(rhs).dims:
                    r = self.arr(self.binop(op, o, rhs))
                    dims, bs = A.broadcast([self.arr(k), r, self.arr(o)])
                    if dims == self.arr(o).dims:
                        self.lib.note_mut(self, o)
                        self.write_arr(o, self.arr(o).with_(body=nf.mkphi(bs[0], bs[1], bs[2])))
                        return None
                cur = self.lib.getitem(self, o, k)
                self.lib.setitem(self, o, k, self.binop(op, cur, rhs))
                return None
            cur = self.lib.getitem(self, o, k)
            rhs = self.ev(s.value, fr)
            if isinstance(c, ArrC):
                r = self.binop(op, cur, rhs)
            else:
                r = self.augop(op, cur, rhs)
            self.lib.setitem(self, o, k, r)
        return None

    def augop(self, op, cur, rhs):
        if isinstance(cur, PhiV):
            cur = self.resolve(cur)
        if isinstance(cur, PhiV):
            return self.split(cur, lambda v: self.augop(op, v, rhs))
        if isinstance(cur, Ref):
            c = self.get(cur)
            if isinstance(c, ListC) and op == "Add":
                items = self.lib.iterate(self, rhs)
                if items is not None:
                    self.lib.note_mut(self, cur)
                    self.mut(cur).items.extend(items)
                    return cur
                return self.top("list += symbolic")
            if isinstance(c, ArrC) and not (c.lib == "jax"):
                r = self.binop(op, cur, rhs)
                rc = self.get(r) if isinstance(r, Ref) else None
                if isinstance(rc, ArrC):
                    tgt = self.arr(cur)
                    if len(rc.dims) != len(tgt.dims) or any(A.sizeof(x) is not A.sizeof(y) for x, y in zip(rc.dims, tgt.dims)):
                        raise AbsRaise("ValueError", "non-broadcastable output operand", self.where())
                    self.write_arr(cur, self.arr(r))
                    return cur
                if isinstance(r, Num) and not self.get(cur).dims:
                    self.write_arr(cur, A.scalar(r.p, c.dt, c.lib))
                    return cur
                self.havoc_arr(cur, "in-place operation with unknown operand")
                return cur
            if isinstance(c, ObjC):
                dun = "__i" + BINDUNDER[op][2:]
                f, _ = c.cls.find(dun)
                if f is not None:
                    return self.call(BoundV(f, cur), [rhs], {})
            if isinstance(c, DictC) and op == "BitOr":
                self.lib.note_mut(self, cur)
                m = self.mut(cur)
                for k, v in self.get(rhs).d.items():
                    m.d[k] = v
                return cur
        return self.binop(op, cur, rhs)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.del_name(t.id, fr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                self.lib.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Ref):
                    self.mut(o).attrs.pop(t.attr, None)
        return None

    def s_If(self, s, fr):
        v = self.ev(s.test, fr)
        t = self.truth(v)
        if t is True:
            return self.exec_block(s.body, fr)
        if t is False:
            return self.exec_block(s.orelse, fr)
        return self.run_branches([(t, lambda: self.exec_block(s.body, fr)), (ONE - t, lambda: self.exec_block(s.orelse, fr))])

    def s_Assert(self, s, fr):
        v = self.ev(s.test, fr)
        t = self.truth(v)
        if t is True:
            return None

        def bad():
            raise AbsRaise("AssertionError", "", self.where())
        if t is False:
            bad()
        self.branch([(t, lambda: None), (ONE - t, bad)])
        return None

    def s_Raise(self, s, fr):
        if s.exc is None:
            if self.exc_current:
                raise self.exc_current[-1]
            raise AbsRaise("RuntimeError", "no active exception", self.where())
        e = self.ev(s.exc, fr)
        name, msg = self.exc_name(e)
        raise AbsRaise(name, msg, self.where())

    def exc_name(self, e):
        if isinstance(e, ExtV):
            return e.path.rsplit(".", 1)[-1], ""
        if isinstance(e, ClsV):
            return e.name, ""
        if isinstance(e, Ref):
            c = self.get(e)
            if isinstance(c, ObjC):
                n = c.cls.name if isinstance(c.cls, ClsV) else str(c.cls)
                a = c.attrs.get("args", ())
                m = a[0] if a and isinstance(a, tuple) else ""
                return n, m if isinstance(m, str) else repr(m)
        return "Exception", ""

    EXC_PARENT = {"IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "ModuleNotFoundError": "ImportError",
                  "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "UnboundLocalError": "NameError",
                  "ZeroDivisionError": "ArithmeticError", "AxisError": "ValueError", "LinAlgError": "ValueError"}

    def exc_matches(self, name, h):
        if h is None:
            return True
        if isinstance(h, tuple):
            return any(self.exc_matches(name, x) for x in h)
        t = h.path.rsplit(".", 1)[-1] if isinstance(h, ExtV) else h.name if isinstance(h, ClsV) else None
        n = name
        while n:
            if n == t:
                return True
            n = self.EXC_PARENT.get(n, "Exception" if n not in ("Exception", "BaseException") else ("BaseException" if n == "Exception" else None))
        return False

    def s_Try(self, s, fr):
        # absent optional packages are handled by the scenario (enabled set)
        saved = self.h.fork()
        nev = len(self.events)
        try:
            self.trydepth += 1
            try:
                sig = self.exec_block(s.body, fr)
            finally:
                self.trydepth -= 1
        except AbsRaise as e:
            for h in s.handlers:
                ht = self.ev(h.type, fr) if h.type is not None else None
                if self.exc_matches(e.exc, ht):
                    if h.name:
                        o = self.alloc(ObjC(ClsV(e.exc, [], {}, None), {"args": (e.msg,)}))
                        self.store_name(h.name, o, fr)
                    self.exc_current.append(e)
                    try:
                        sig = self.exec_block(h.body, fr)
                    finally:
                        self.exc_current.pop()
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody, fr)
                raise
        else:
            if sig is None and s.orelse:
                sig = self.exec_block(s.orelse, fr)
        if s.finalbody:
            if isinstance(sig, Multi):
                return sig
            f = self.exec_block(s.finalbody, fr)
            if f is not None:
                return f
        return sig

    def s_With(self, s, fr):
        off = 0
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if isinstance(v, NativeV) and v.name == "no_grad":
                off = 1
            if isinstance(v, Ref) and isinstance(self.get(v), ObjC) and isinstance(self.get(v).cls, ClsV) and self.get(v).cls.find("__enter__")[0] is not None:
                v = self.call(self.getattr(v, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.nograd += off
        try:
            return self.exec_block(s.body, fr)
        finally:
            self.nograd -= off

    def s_While(self, s, fr):
        pend = []
        count = 0
        while True:
            t = self.truth(self.ev(s.test, fr))
            if t is False:
                break
            count += 1
            if t is not True or count > 300:
                return self.havoc_loop(s, fr, pend)
            sig = self.exec_block(s.body, fr)
            r = self.loop_sig(sig, pend)
            if r == "break":
                return self.close_loop(pend, fr, None)
            if r is not None and r != "next":
                return r
        return self.close_loop(pend, fr, s.orelse)

    def loop_sig(self, sig, pend):
        """Digest the signal of one iteration.  pend collects (guard, sig, heap)
        of finished leaves; returns None to go on, 'break', or a Sig."""
        if sig is None or sig is CONT:
            return None
        if sig is BRK:
            if pend:
                pend.append((self._pend_rest(pend), None, self.h))
                return "break"
            return "break"
        if not isinstance(sig, Multi):
            if pend:
                pend.append((self._pend_rest(pend), sig, self.h))
                return "break"
            return sig
        rest = self._pend_rest(pend)
        go = [(g, h) for g, s_, h in sig.leaves if s_ is None or s_ is CONT]
        for g, s_, h in sig.leaves:
            if s_ is None or s_ is CONT:
                continue
            pend.append((rest * g, None if s_ is BRK else s_, h))
        if not go:
            return "break"
        base = self._basefor(sig)
        if len(go) == 1:
            self.h = go[0][1].fork()
        else:
            self.join(base, [(g, None, h) for g, h in go])
        return None

    def _pend_rest(self, pend):
        r = ONE
        for g, _, _ in pend:
            r = r - g
        return r

    def close_loop(self, pend, fr, orelse):
        if not pend:
            if orelse:
                return self.exec_block(orelse, fr)
            return None
        rest = self._pend_rest(pend)
        leaves = list(pend)
        if rest.const() != 0 and not (orelse is None):
            sig = None
            if orelse:
                sig = self.exec_block(orelse, fr)
            if isinstance(sig, Multi):
                leaves += [(rest * g, s_, h) for g, s_, h in sig.leaves]
            else:
                leaves.append((rest, sig, self.h))
        m = Multi(leaves)
        if all(s_ is None for _, s_, _ in leaves):
            self.join(self._basefor(m), [(g, None, h) for g, _, h in leaves])
            return None
        return m

    def havoc_loop(self, s, fr, pend):
        """loop with an undetermined trip count: everything it may assign is
        unknown afterwards"""
        self.taints.append(f"loop not summarised @ {self.where()}")
        for n in scope_targets(s):
            self.store_name(n, self.top("assigned in unsummarised loop"), fr)
        return None

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        return self.for_over(s, it, fr)

    def for_over(self, s, it, fr):
        it = self.resolve(it)
        if isinstance(it, PhiV):
            alts = [(g, (lambda v=v: self.for_over(s, v, fr))) for g, v in it.alts if v is not UNDEF]
            return self.run_branches(alts)
        if isinstance(it, TopV):
            return self.havoc_loop(s, fr, [])
        items = self.lib.iterate(self, it)
        if isinstance(items, SeqV):
            return self.summarise(s, items, fr)
        if items is None:
            return self.havoc_loop(s, fr, [])
        pend = []
        for x in items:
            if isinstance(x, CondItem):
                # element present only under a guard
                g = self.simp(x.g)
                if g.const() == 0:
                    continue
                if g.const() is None:
                    def one(x=x):
                        self.assign(s.target, x.v, fr)
                        return self.exec_block(s.body, fr)
                    sig = self.run_branches([(g, one), (ONE - g, lambda: None)])
                else:
                    self.assign(s.target, x.v, fr)
                    sig = self.exec_block(s.body, fr)
            else:
                self.assign(s.target, x, fr)
                sig = self.exec_block(s.body, fr)
            r = self.loop_sig(sig, pend)
            if r == "break":
                return self.close_loop(pend, fr, None)
            if r is not None:
                return r
        return self.close_loop(pend, fr, s.orelse)

    # ------------------------------------------------- symbolic loop summary
    def summarise(self, s, seq, fr):
        c = seq.n.const()
        t = nf.tmp(seq.n)
        base = self.h

        def run(heap):
            self.h = heap
            self.assign(s.target, seq.get(atom(t)), fr)
            sig = self.exec_block(s.body, fr)
            if isinstance(sig, Multi):
                if all(sg is None or sg is CONT for _, sg, _ in sig.leaves):
                    self.join(self._basefor(sig), [(g, None, h) for g, _, h in sig.leaves])
                    return True
                return False
            return sig is None or sig is CONT

        nev = len(self.events)
        if not run(base.fork()):
            del self.events[nev:]
            self.h = base
            return self.havoc_loop(s, fr, [])
        changed = [k for k in base.m if self.h.m.get(k) is not base.m[k]]
        del self.events[nev:]
        h = base.fork()
        carried = {}
        lists = {}

        def carry(v, path):
            if is_num(v):
                nm = f"carried#{self._tn()}"
                carried[nm] = (path, v)
                return mknum(nf.sym(nm), num_kind(v) if num_kind(v) != "bool" else "float")
            return v
        tnames = set(scope_targets_expr(s.target))
        for k in changed:
            old, new = base.m[k], self.h.m[k]
            if isinstance(old, FrameC):
                f = h.mut(k)
                for n_, v in old.vars.items():
                    if n_ in tnames:
                        continue
                    if new.vars.get(n_) is not v and not _safe_eq(new.vars.get(n_), v):
                        f.vars[n_] = carry(v, ("var", k, n_))
            elif isinstance(old, ObjC):
                o = h.mut(k)
                for n_, v in old.attrs.items():
                    if new.attrs.get(n_) is not v and not _safe_eq(new.attrs.get(n_), v):
                        o.attrs[n_] = carry(v, ("attr", k, n_))
            elif isinstance(old, ArrC):
                nm = f"carried#{self._tn()}"
                idx = [x for r in A.free_idx(old.dims) for x in r]
                h.m[k] = old.with_(body=nf.mkel(nm, idx) if idx else nf.sym(nm))
                carried[nm] = (("arr", k), old)
        if not run(h):
            self.h = base
            return self.havoc_loop(s, fr, [])
        H1 = self.h
        res = base.fork()
        self.h = res
        for k, c_ in H1.m.items():
            if k not in res.m:
                res.m[k] = c_
        names = set(carried)

        def has_carried(p):
            for a in nf.atoms_of(p):
                if a.kind == "sym" and a.args[0] in names:
                    return True
                if a.kind == "el" and a.args[0] in names:
                    return True
            return False

        def close(p, nm, cat, oldp):
            """p: value after one generic iteration; cat: the carried atom poly"""
            # p = A + B*carried
            a = cat.single()
            Ap, Bp = ZERO, ZERO
            for m, co in p.terms.items():
                es = dict(m.factors)
                if a in es and es[a] == 1 and not m.bound:
                    del es[a]
                    Bp = Bp + nf.build((), tuple(es.items()), co)
                else:
                    Ap = Ap + Poly({m: co})
            if has_carried(Ap) or has_carried(Bp):
                return None
            if Bp is ONE:
                return oldp + nf.sum_over(Ap, t)
            if Bp is ZERO:
                return nf.subst(Ap, {t: seq.n - 1})
            D = ONE - Bp
            if all(x.isbool for m in D.terms for x, _ in m.factors):
                S = nf.sum_over(D, t)
                if any(m.bound for m in S.terms):
                    return None
                return nf.sum_over(Ap, t) + (ONE - S) * oldp
            return None

        for k in changed:
            old, new = base.m[k], H1.m[k]
            inv = {v[0]: (nm, v[1]) for nm, v in carried.items()}
            if isinstance(old, FrameC):
                f = res.mut(k)
                for n_, v in new.vars.items():
                    if old.vars.get(n_) is v:
                        continue
                    key = ("var", k, n_)
                    if key in inv and is_num(v):
                        nm, ov = inv[key]
                        r = close(num_poly(v), nm, nf.sym(nm), num_poly(ov))
                        f.vars[n_] = mknum(r, num_kind(v)) if r is not None else self.top("loop-carried value")
                    elif n_ in old.vars and not is_num(v) and not _safe_eq(old.vars[n_], v) and not isinstance(old.vars[n_], TopV) and n_ not in tnames:
                        f.vars[n_] = self._last(v, t, seq, has_carried, strict=True)
                    else:
                        f.vars[n_] = self._last(v, t, seq, has_carried)
            elif isinstance(old, ObjC):
                o = res.mut(k)
                for n_, v in new.attrs.items():
                    if old.attrs.get(n_) is v:
                        continue
                    key = ("attr", k, n_)
                    if key in inv and is_num(v):
                        nm, ov = inv[key]
                        r = close(num_poly(v), nm, nf.sym(nm), num_poly(ov))
                        o.attrs[n_] = mknum(r, num_kind(v)) if r is not None else self.top("loop-carried attribute")
                    else:
                        o.attrs[n_] = self._last(v, t, seq, has_carried)
            elif isinstance(old, ArrC):
                nm, _ = inv[("arr", k)]
                idx = [x for r in A.free_idx(old.dims) for x in r]
                cat = nf.mkel(nm, idx) if idx else nf.sym(nm)
                try:
                    r = close(new.body, nm, cat, old.body)
                except nf.Overflow:
                    r = None
                if r is None or new.dims != old.dims:
                    res.m[k] = old.with_(body=nf.sym(f"top#{self._tn()}"))
                    self.taints.append(f"loop-carried array @ {self.where()}")
                else:
                    res.m[k] = new.with_(body=r)
            elif isinstance(old, ListC) and isinstance(new, ListC):
                add = new.items[len(old.items):]
                if len(add) == 1 and new.items[:len(old.items)] == old.items and not old.items:
                    v = add[0]
                    tv = self.freeze(v)
                    res.m[k] = SymListC(SeqV(seq.n, lambda p, tv=tv: self.thaw(tv, {t: p}), "list"))
                else:
                    res.m[k] = SymListC(SeqV(nf.sym(f"top#{self._tn()}"), lambda p: self.top("list built in loop"), "list"))
                    self.taints.append(f"list changed in loop @ {self.where()}")
            else:
                self.taints.append(f"container changed in loop @ {self.where()}")
                if isinstance(old, DictC):
                    res.m[k] = DictC({kk: self.top("dict changed in loop") for kk in new.d})
        return None

    def _last(self, v, t, seq, has_carried, strict=False):
        """value of a per-iteration temporary after the last iteration"""
        fz = self.freeze(v)
        if strict:
            return self.top("loop-carried reference") if not isinstance(v, Ref) or not isinstance(self.h.m.get(v.id), ArrC) else self._lastarr(v, t, seq, has_carried)
        r = self.thaw(fz, {t: seq.n - 1})
        return r

    def _lastarr(self, v, t, seq, has_carried):
        c = self.get(v)
        if has_carried(c.body):
            return self.top("loop-carried array reference")
        return self.thaw(self.freeze(v), {t: seq.n - 1})

    def freeze(self, v):
        """heap independent snapshot of a value (arrays by content)"""
        if isinstance(v, tuple):
            return ("tuple", tuple(self.freeze(x) for x in v))
        if isinstance(v, Num):
            return ("num", v)
        if isinstance(v, Ref):
            c = self.h.m.get(v.id)
            if isinstance(c, ArrC):
                return ("arr", self.arr(v).with_(view=None))
            if isinstance(c, ListC):
                return ("list", tuple(self.freeze(x) for x in c.items))
            if isinstance(c, DictC):
                return ("dict", tuple((k, self.freeze(x)) for k, x in c.d.items()))
            return ("raw", v)
        if isinstance(v, PhiV):
            return ("phi", tuple((g, self.freeze(x)) for g, x in v.alts))
        return ("raw", v)

    def thaw(self, f, mp):
        k, x = f
        if k == "tuple":
            return tuple(self.thaw(y, mp) for y in x)
        if k == "num":
            return mknum(subst(x.p, mp), x.kind, x.lib)
        if k == "arr":
            dims = tuple(tuple(subst(s, mp) for s in ax) for ax in x.dims)
            # the free indices carry the axis sizes
            body = x.body if dims == x.dims else A.at(x, A.free_idx(dims))
            return self.new_arr(x.with_(body=subst(body, mp), dims=dims))
        if k == "list":
            return self.new_list([self.thaw(y, mp) for y in x])
        if k == "dict":
            return self.new_dict({kk: self.thaw(y, mp) for kk, y in x})
        if k == "phi":
            return PhiV([(subst(g, mp), self.thaw(y, mp)) for g, y in x])
        return x

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self, self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise AnalysisError("assignment target")

    def unpack(self, elts, v, fr):
        v = self.resolve(v)
        if isinstance(v, TopV):
            for e in elts:
                self.assign(e, v, fr)
            return
        if isinstance(v, PhiV):
            parts = self.split(v, lambda x: tuple(self.unpack_items(x, elts)))
            for e, x in zip(elts, parts):
                self.assign(e, x, fr)
            return
        for e, x in zip(elts, self.unpack_items(v, elts)):
            self.assign(e, x, fr)

    def unpack_items(self, v, elts):
        items = self.lib.iterate(self, v)
        if isinstance(items, SeqV):
            n = items.n.const()
            if n is None:
                if any(isinstance(e, ast.Starred) for e in elts):
                    return [self.top("starred unpack")] * len(elts)
                raise AbsRaise("ValueError", f"cannot unpack {nf.show(items.n)} values into {len(elts)}", self.where())
            items = [items.get(const(i)) for i in range(int(n))]
        if items is None:
            return [self.top("unpack")] * len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                raise AbsRaise("ValueError", "not enough values to unpack", self.where())
            mid = items[i:len(items) - after]
            return items[:i] + [self.new_list(mid)] + (items[len(items) - after:] if after else [])
        if len(items) != len(elts):
            raise AbsRaise("ValueError", f"cannot unpack {len(items)} values into {len(elts)}", self.where())
        return list(items)

    def store_name(self, name, v, fr):
        if isinstance(fr, (ModFrame, ClassFrame)):
            fr.ns[name] = v
            return
        if name in fr.globals:
            fr.mod.ns[name] = v
            return
        if name in fr.nonlocals:
            r = self.h.get(fr.ref.id).parent
            while r is not None:
                c = self.h.get(r.id)
                if name in c.names:
                    self.h.mut(r.id).vars[name] = v
                    return
                r = c.parent
        self.h.mut(fr.ref.id).vars[name] = v

    def del_name(self, name, fr):
        if isinstance(fr, (ModFrame, ClassFrame)):
            fr.ns.pop(name, None)
        else:
            self.h.mut(fr.ref.id).vars.pop(name, None)

    def load_name(self, name, fr):
        f = fr
        while isinstance(f, ClassFrame):
            if name in f.ns:
                return f.ns[name]
            f = f.outer
        if isinstance(f, Frame):
            if name not in f.globals:
                r = f.ref
                while r is not None:
                    c = self.h.get(r.id)
                    if name in c.vars:
                        v = c.vars[name]
                        if isinstance(v, PhiV):
                            w = self.resolve(v)
                            if isinstance(w, PhiV) and any(x is UNDEF for _, x in w.alts):
                                return self.split(w, lambda x: x)
                            return w
                        return v
                    if name in c.names:
                        raise AbsRaise("UnboundLocalError", f"local variable {name!r} referenced before assignment", self.where())
                    r = c.parent
        ns = fr.mod.ns
        if name in ns:
            return ns[name]
        if name in BUILTINS:
            return ExtV("builtins." + name)
        if name == "__debug__":
            return True
        raise AbsRaise("NameError", f"name {name!r} is not defined", self.where())

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise AnalysisError("analysis budget exhausted")
        ln = getattr(e, "lineno", None)
        if ln:
            self.line = ln
        try:
            return getattr(self, "e_" + type(e).__name__)(e, fr)
        except Unknown as u:
            return self.top(str(u))
        except nf.Overflow as o:
            return self.top("overflow: " + str(o))
        except AbsRaise as x:
            if x.where is None:
                x.where = self.where()
            raise

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Num(const(v), "float")
        if isinstance(v, bytes) or isinstance(v, complex):
            return self.top("constant")
        return v

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.ev_list(e.elts, fr))

    def e_List(self, e, fr):
        return self.new_list(self.ev_list(e.elts, fr))

    def e_Set(self, e, fr):
        out = []
        for x in self.ev_list(e.elts, fr):
            if x not in out:
                out.append(x)
        return self.alloc(SetC(out))

    def ev_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                items = self.lib.iterate(self, v)
                if items is None or isinstance(items, SeqV):
                    raise Unknown("star of symbolic sequence")
                out += items
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        conds = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.resolve(self.ev(v, fr))
                if isinstance(m, Ref) and isinstance(self.get(m), DictC):
                    c = self.get(m)
                    d.update(c.d)
                    conds.update(c.conds)
                    continue
                raise Unknown("dict ** of unknown")
            kk = self.ev(k, fr)
            d[self.lib.hashable(self, kk)] = self.ev(v, fr)
        return self.alloc(DictC(d, None, conds))

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (int, bool)) or x is None:
                    x = str(x)
                parts.append(x)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return StrV(parts)

    def e_FormattedValue(self, e, fr):
        return StrV((self.ev(e.value, fr),))

    def e_Lambda(self, e, fr):
        return self.make_fn(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_IfExp(self, e, fr):
        return self.cond(self.ev(e.test, fr), lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t is isand:
                    return go(i + 1)
                return v
            if isand:
                return self.branch([(t, lambda: go(i + 1)), (ONE - t, lambda: v if not isinstance(v, Num) or v.kind != "bool" else False)])
            return self.branch([(t, lambda: v if not isinstance(v, Num) or v.kind != "bool" else True), (ONE - t, lambda: go(i + 1))])
        return go(0)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        return self.unop(op, v)

    def unop(self, op, v):
        if op == "Not":
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return mknum(ONE - t, "bool")
        if isinstance(v, PhiV):
            return self.split(v, lambda x: self.unop(op, x))
        if isinstance(v, TopV):
            return v
        if is_num(v):
            if op == "USub":
                return mknum(-num_poly(v), "int" if num_kind(v) != "float" else "float", num_lib(v))
            if op == "UAdd":
                return v
            if op == "Invert":
                if num_kind(v) == "bool" and num_lib(v) != "py":
                    return Num(ONE - num_poly(v), "bool", num_lib(v))
                return mknum(-num_poly(v) - 1, "int")
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, ArrC):
                c = self.arr(v)
                if op == "USub":
                    return self.new_arr(ArrC(c.dims, -c.body, c.dt, c.lib))
                if op == "UAdd":
                    return v
                if op == "Invert":
                    return self.new_arr(ArrC(c.dims, ONE - c.body if c.dt == "bool" else -c.body - 1, c.dt, c.lib))
            if isinstance(c, ObjC):
                f = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op]
                return self.call(self.getattr(v, f), [], {})
        raise AbsRaise("TypeError", f"bad operand type for unary {op}", self.where())

    def e_BinOp(self, e, fr):
        l = self.ev(e.left, fr)
        r = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, l, r)

    def binop(self, op, l, r):
        if isinstance(l, PhiV):
            l = self.resolve(l)
        if isinstance(r, PhiV):
            r = self.resolve(r)
        if isinstance(l, PhiV):
            return self.split(l, lambda x: self.binop(op, x, r))
        if isinstance(r, PhiV):
            return self.split(r, lambda x: self.binop(op, l, x))
        return self.lib.binop(self, op, l, r)

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, fr)
            v = self.compare(type(op).__name__, l, r)
            if res is None:
                res = v
            else:
                a, b = res, v
                t = self.truth(a)
                if isinstance(t, bool):
                    res = b if t else a
                else:
                    u = self.truth(b)
                    res = mknum(t * nf.lift(u), "bool")
            l = r
        return res

    def compare(self, op, l, r):
        if isinstance(l, PhiV):
            l = self.resolve(l)
        if isinstance(r, PhiV):
            r = self.resolve(r)
        if isinstance(l, PhiV):
            return self.split(l, lambda x: self.compare(op, x, r))
        if isinstance(r, PhiV) and op not in ("In", "NotIn"):
            return self.split(r, lambda x: self.compare(op, l, x))
        return self.lib.compare(self, op, l, r)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev(e.slice, fr)
        return self.lib.getitem(self, o, k)

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, fr):
        raise AnalysisError("starred")

    def e_Await(self, e, fr):
        raise AnalysisError("await")

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        items = self.lib.iterate(self, self.ev(e.value, fr))
        if items is None or isinstance(items, SeqV):
            raise Unknown("yield from symbolic")
        fr.yields.extend(items)
        return None

    # comprehensions
    def comp(self, gens, fr, emit):
        """-> list of emitted values, or SeqV; conditional elements CondItem"""
        cf = self.sub_frame(fr, gens)

        def go(i, guard):
            g = gens[i]
            it = self.resolve(self.ev(g.iter, fr if i == 0 else cf))
            if isinstance(it, TopV):
                raise Unknown("iteration over unknown: " + it.why)
            if isinstance(it, PhiV):
                raise Unknown("iteration over alternatives")
            items = self.lib.iterate(self, it)
            if items is None:
                raise Unknown("iteration over unknown")
            if isinstance(items, SeqV):
                if len(gens) > 1 or g.ifs:
                    raise Unknown("nested or filtered symbolic comprehension")
                t = nf.tmp(items.n)
                self.assign(g.target, items.get(atom(t)), cf)
                v = emit(cf)
                fz = self.freeze(v)
                return SeqV(items.n, lambda p: self.thaw(fz, {t: p}), "comp")
            out = []
            for x in items:
                gg = guard
                if isinstance(x, CondItem):
                    gg = gg * x.g
                    x = x.v
                    gg = self.simp(gg)
                    if gg.const() == 0:
                        continue
                self.assign(g.target, x, cf)
                ok = True
                for cnd in g.ifs:
                    t = self.truth(self.ev(cnd, cf))
                    if t is False:
                        ok = False
                        break
                    if t is not True:
                        gg = gg * t
                if not ok:
                    continue
                if i + 1 < len(gens):
                    r = go(i + 1, gg)
                    if isinstance(r, SeqV):
                        raise Unknown("nested symbolic comprehension")
                    out += r
                else:
                    v = emit(cf)
                    out.append(v if gg is ONE else CondItem(gg, v))
            return out
        r = go(0, ONE)
        if not cf.captured:
            self.h.m.pop(cf.ref.id, None)
        return r

    def sub_frame(self, fr, gens):
        names = set()
        for g in gens:
            names |= set(scope_targets_expr(g.target))
        parent = None
        f = fr
        while isinstance(f, ClassFrame):
            f = f.outer
        if isinstance(f, Frame):
            parent = f.ref
            f.captured = f.captured
        ref = self.alloc(FrameC(parent, frozenset(names)))
        cf = Frame(ref, fr.mod, frozenset(), frozenset(), getattr(fr, "qual", None))
        cf.parentframe = f if isinstance(f, Frame) else None
        cf.clsframe = fr if isinstance(fr, ClassFrame) else getattr(fr, "clsframe", None)
        cf.selfval = getattr(fr, "selfval", None)
        if isinstance(fr, ClassFrame):
            self.h.mut(ref.id).vars.update({})
        return cf

    def e_ListComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda cf: self.ev(e.elt, cf))
        if isinstance(r, SeqV):
            return self.alloc(SymListC(r))
        if any(isinstance(x, CondItem) for x in r):
            return self.alloc(CondListC(r))
        return self.new_list(r)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e.generators, fr, lambda cf: self.ev(e.elt, cf))
        return self.alloc(GenC(r))

    def e_SetComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda cf: self.ev(e.elt, cf))
        if isinstance(r, SeqV):
            raise Unknown("symbolic set")
        out = []
        for x in r:
            if isinstance(x, CondItem):
                raise Unknown("conditional set")
            if x not in out:
                out.append(x)
        return self.alloc(SetC(out))

    def e_DictComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda cf: (self.ev(e.key, cf), self.ev(e.value, cf)))
        if isinstance(r, SeqV):
            raise Unknown("symbolic dict")
        d, conds = {}, {}
        for x in r:
            g = ONE
            if isinstance(x, CondItem):
                g, x = x.g, x.v
            k = self.lib.hashable(self, x[0])
            d[k] = x[1]
            if g is not ONE:
                conds[k] = g
            else:
                conds.pop(k, None)
        return self.alloc(DictC(d, None, conds))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(fr)
        f = self.ev(e.func, fr)
        args = []
        symstar = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                items = self.lib.iterate(self, v)
                if items is None or isinstance(items, SeqV):
                    raise Unknown("call with symbolic *args")
                if any(isinstance(x, CondItem) for x in items):
                    raise Unknown("conditional *args")
                args += items
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        conds = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.resolve(self.ev(k.value, fr))
                if isinstance(m, TopV):
                    raise Unknown("** of unknown")
                if isinstance(m, PhiV):
                    raise Unknown("** of alternatives")
                c = self.get(m)
                if not isinstance(c, DictC):
                    raise AbsRaise("TypeError", "argument after ** must be a mapping", self.where())
                for kk, v in c.d.items():
                    if kk in kwargs:
                        raise AbsRaise("TypeError", f"got multiple values for keyword argument {kk!r}", self.where())
                    kwargs[kk] = v
                    if kk in c.conds:
                        conds[kk] = c.conds[kk]
            else:
                if k.arg in kwargs:
                    raise AbsRaise("TypeError", f"got multiple values for keyword argument {k.arg!r}", self.where())
                kwargs[k.arg] = self.ev(k.value, fr)
        self.line = e.lineno
        if conds:
            return self.call_cond(f, args, kwargs, conds)
        return self.call(f, args, kwargs)

    def call_cond(self, f, args, kwargs, conds):
        k = next(iter(conds))
        g = self.simp(conds[k])
        rest = {a: b for a, b in conds.items() if a != k}
        kw2 = {a: b for a, b in kwargs.items() if a != k}
        nxt = lambda kw: self.call_cond(f, args, kw, rest) if rest else self.call(f, args, kw)
        if g.const() == 1:
            return nxt(kwargs)
        if g.const() == 0:
            return nxt(kw2)
        return self.branch([(g, lambda: nxt(kwargs)), (ONE - g, lambda: nxt(kw2))])

    def make_super(self, fr):
        f = fr
        while f is not None and getattr(f, "selfval", None) is None:
            f = getattr(f, "parentframe", None)
        cf = fr.clsframe
        if f is None or cf is None:
            raise AbsRaise("RuntimeError", "super(): no arguments", self.where())
        return SuperV(cf.cls, f.selfval)

    def call(self, f, args, kwargs):
        try:
            return self._call(f, args, kwargs)
        except Unknown as u:
            return self.top(str(u))
        except nf.Overflow as o:
            return self.top("overflow: " + str(o))

    def _call(self, f, args, kwargs):
        if isinstance(f, BoundV):
            if isinstance(f.self_, PhiV):
                return self.split(f.self_, lambda s: self.call(BoundV(f.fn, s), args, kwargs))
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FnV):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, NativeV):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ExtV):
            return self.lib.call_ext(self, f.path, list(args), kwargs)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, PhiV):
            f = self.resolve(f)
            if not isinstance(f, PhiV):
                return self.call(f, args, kwargs)
            return self.split(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, TopV):
            self.havoc_args(args, kwargs)
            return TopV("call of " + f.why)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, Ref):
            c = self.get(f)
            if isinstance(c, ObjC):
                m = None
                if isinstance(c.cls, ClsV):
                    m, _ = c.cls.find("__call__")
                if m is not None:
                    return self.call(BoundV(m, f), args, kwargs)
                if isinstance(c.cls, ClsV):
                    for b in c.cls.mro:
                        if isinstance(b, ExtV) and b.path.endswith("nn.Module"):
                            return self.call(self.getattr(f, "forward"), args, kwargs)
        raise AbsRaise("TypeError", f"object {self.describe(f)} is not callable", self.where())

    def havoc_args(self, args, kwargs):
        for a in list(args) + list(kwargs.values()):
            pass

    def describe(self, v):
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, ObjC):
                return f"{c.cls.name if isinstance(c.cls, ClsV) else c.cls} instance"
            return c.kind
        return repr(v)[:80]

    def call_fn(self, f, args, kwargs):
        key = id(f.node)
        d = self.depth.get(key, 0)
        if d > 25 or len(self.stack) > self.MAXDEPTH:
            raise AbsRaise("RecursionError", f"unbounded recursion through {f.qual}", self.where())
        names, glo, non, hy = scope(f.node)
        ref = self.alloc(FrameC(f.env, names))
        fr = Frame(ref, f.mod, glo, non, f.qual)
        fr.clsframe = f.cls if isinstance(f.cls, ClassFrame) else None
        try:
            vars_ = self.bind(f, args, kwargs)
        except AbsRaise as e:
            e.where = e.where or self.where()
            raise
        self.h.mut(ref.id).vars.update(vars_)
        if args:
            a = f.node.args
            pos = a.posonlyargs + a.args
            if pos and fr.clsframe is not None:
                fr.selfval = vars_.get(pos[0].arg)
        self.calls += 1
        self.fnseen.add(f"{path_of(f, self.src)}:{f.qual}")
        self.depth[key] = d + 1
        path = os.path.relpath(f.mod.path, os.path.dirname(self.src)) if f.mod.path else f.mod.name
        saved = self.line
        self.stack.append((f.qual, path))
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, fr)
            else:
                if hy:
                    fr.yields = []
                    sig = self.exec_block(f.node.body, fr)
                    r = self.alloc(GenC(fr.yields))
                else:
                    r = self.finish(self.exec_block(f.node.body, fr))
        except AbsRaise as e:
            if e.where is None:
                e.where = self.where()
            raise
        finally:
            self.stack.pop()
            self.depth[key] = d
            self.line = saved
        if not fr.captured:
            self.h.m.pop(ref.id, None)
        return r

    def finish(self, sig):
        if sig is None:
            return None
        if isinstance(sig, Multi):
            res = [(g, sg.v if sg is not None else None, h) for g, sg, h in sig.leaves]
            return self.join(self._basefor(sig), res)
        return sig.v

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        for k in list(kwargs):
            if not isinstance(k, str):
                raise AbsRaise("TypeError", "keywords must be strings", self.where())
        if len(args) > len(pos):
            if a.vararg is None:
                raise AbsRaise("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given", self.where())
            out[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        nposonly = len(a.posonlyargs)
        for i, n in enumerate(pos):
            if n in kwargs and i >= nposonly:
                if n in out:
                    raise AbsRaise("TypeError", f"{f.name}() got multiple values for argument {n!r}", self.where())
                out[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise AbsRaise("TypeError", f"{f.name}() missing required positional argument: {n!r}", self.where())
                out[n] = f.defaults[j]
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                out[k.arg] = kwargs.pop(k.arg)
            elif k.arg in f.kwdefaults:
                out[k.arg] = f.kwdefaults[k.arg]
            else:
                raise AbsRaise("TypeError", f"{f.name}() missing required keyword-only argument: {k.arg!r}", self.where())
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(kwargs)
        elif kwargs:
            raise AbsRaise("TypeError", f"{f.name}() got an unexpected keyword argument {next(iter(kwargs))!r}", self.where())
        return out

    def instantiate(self, cls, args, kwargs):
        new, _ = cls.find("__new__")
        o = self.alloc(ObjC(cls, {}))
        init, _ = cls.find("__init__")
        if init is not None:
            self.call(BoundV(init, o), args, kwargs)
        elif any(isinstance(b, ExtV) and b.path.startswith("builtins.") for b in cls.mro):
            self.mut(o).attrs["args"] = tuple(args)
        elif args or kwargs:
            if not any(isinstance(b, ExtV) for b in cls.mro):
                raise AbsRaise("TypeError", f"{cls.name}() takes no arguments", self.where())
        return o

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name, default=UNDEF):
        try:
            return self._getattr(o, name)
        except AbsRaise as e:
            if e.exc == "AttributeError" and default is not UNDEF:
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, PhiV):
            o = self.resolve(o)
        if isinstance(o, PhiV):
            return self.split(o, lambda x: self.getattr(x, name))
        if isinstance(o, TopV):
            return TopV(f"{o.why}.{name}"[:200])
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            if name == "__name__":
                return o.name
            raise AbsRaise("AttributeError", f"module {o.name!r} has no attribute {name!r}", self.where())
        if isinstance(o, ExtV):
            return self.lib.ext_attr(self, o, name)
        if isinstance(o, ClsV):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__module__":
                return o.mod.name if o.mod else "builtins"
            v, _ = o.find(name)
            if v is None and name not in o.ns:
                raise AbsRaise("AttributeError", f"type object {o.name!r} has no attribute {name!r}", self.where())
            if isinstance(v, StaticV):
                return BoundV(v.fn, o) if v.kind == "classmethod" else v.fn
            return v
        if isinstance(o, SuperV):
            c = self.get(o.self_).cls if isinstance(o.self_, Ref) else o.self_
            v, _ = c.find(name, start=o.cls)
            if v is None:
                if name == "__init__":
                    return NativeV("object.__init__", lambda I, a, k: None)
                exts = [b for b in c.mro if isinstance(b, ExtV)]
                if exts:
                    return NativeV(name, lambda I, a, k: I.top("super of external class"))
                raise AbsRaise("AttributeError", f"'super' object has no attribute {name!r}", self.where())
            if isinstance(v, PropV):
                return self.call(v.fget, [o.self_], {})
            if isinstance(v, StaticV):
                return v.fn
            return BoundV(v, o.self_)
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, ObjC):
                return self.obj_attr(o, c, name)
            if isinstance(c, _PhiList):
                return self.lib.attr(self, o, name)
            return self.lib.attr(self, o, name)
        if isinstance(o, FnV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.mod.name
            if name in ("__dict__", "__wrapped__", "__defaults__"):
                return self.top("function attribute")
            raise AbsRaise("AttributeError", f"function has no attribute {name!r}", self.where())
        if isinstance(o, NativeV):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            return self.top(f"attribute {name} of {o.name}")
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, PropV):
            if name == "setter":
                return NativeV("setter", lambda I, a, k: PropV(o.fget, a[0]))
        return self.lib.attr(self, o, name)

    def obj_attr(self, o, c, name):
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return self.alloc(ObjDictC(self, o))
        cls = c.cls
        if isinstance(cls, ClsV):
            v, owner = cls.find(name)
            if isinstance(v, CachedV):
                if name not in c.attrs:
                    r = self.call(v.fget, [o], {})
                    self.mut(o).attrs[name] = r
                    return r
            elif isinstance(v, PropV):
                return self.call(v.fget, [o], {})
        if name in c.attrs:
            v = c.attrs[name]
            if isinstance(v, PhiV):
                v = self.resolve(v)
                if isinstance(v, PhiV) and any(x is UNDEF for _, x in v.alts):
                    return self.split(v, lambda x: x)
            return v
        if isinstance(cls, ClsV):
            if owner is not None:
                if isinstance(v, StaticV):
                    return BoundV(v.fn, cls) if v.kind == "classmethod" else v.fn
                if isinstance(v, (FnV, NativeV, BoundV)):
                    return BoundV(v, o) if not isinstance(v, BoundV) else v
                return v
            ga, _ = cls.find("__getattr__")
            if ga is not None:
                return self.call(BoundV(ga, o), [name], {})
            exts = [b for b in cls.mro if isinstance(b, ExtV) and not b.path.startswith("builtins.")]
            if exts:
                return self.lib.ext_method(self, o, exts[0], name)
            if name == "__str__" or name == "__repr__":
                return NativeV("str", lambda I, a, k: StrV((o,)))
            if name == "__eq__":
                return NativeV("eq", lambda I, a, k: a[0] == o)
            if name in ("__init__",):
                return NativeV("init", lambda I, a, k: None)
        else:
            return self.lib.obj_ext_attr(self, o, c, name)
        raise AbsRaise("AttributeError", f"{cls.name!r} object has no attribute {name!r}", self.where())

    def setattr(self, o, name, v):
        if isinstance(o, PhiV):
            o = self.resolve(o)
        if isinstance(o, PhiV):
            self.split(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, ObjC):
                if name == "__dict__":
                    d = self.get(v) if isinstance(v, Ref) else None
                    if isinstance(d, ObjDictC):
                        if d.owner != o:
                            self.h.put(o.id, AliasC(c.cls, self, d.owner))
                    elif isinstance(d, DictC) and not d.conds:
                        self.mut(o).attrs = dict(d.d)
                    else:
                        raise Unknown("assignment of __dict__")
                    return
                if isinstance(c.cls, ClsV):
                    p, _ = c.cls.find(name)
                    if isinstance(p, PropV) and not isinstance(p, CachedV):
                        if p.fset is None:
                            raise AbsRaise("AttributeError", f"property {name!r} has no setter", self.where())
                        self.call(p.fset, [o, v], {})
                        return
                self.mut(o).attrs[name] = v
                if c.origin:
                    self.event("setattr", origin=c.origin, attr=name, ref=o)
                return
            if isinstance(c, ArrC) and name == "shape":
                self.lib.set_shape(self, o, v)
                return
            return
        if isinstance(o, ClsV):
            o.ns[name] = v
            return
        if isinstance(o, FnV):
            o.attrs[name] = v
            return
        if isinstance(o, ModV):
            o.ns[name] = v
            return
        if isinstance(o, (TopV, ExtV, NativeV)):
            return
        raise AbsRaise("AttributeError", f"cannot set attribute {name!r}", self.where())

    # ----------------------------------------------------------------- arrays
    def arr(self, ref):
        """current content of an array (views are re-read from their base)"""
        c = self.h.get(ref.id)
        if c.view is not None:
            base, kind, par, stamp = c.view
            b = self.arr(base)
            if b is not stamp:
                if kind == "key":
                    n = A.getitem(b, par)
                elif kind == "reshape":
                    n = A.reshape(b, par)
                elif kind == "perm":
                    n = A.permute(b, par)
                elif kind == "squeeze":
                    n = A.reshape(b, par)
                else:
                    raise AnalysisError("view")
                c = n.with_(lib=c.lib, dt=c.dt, root=c.root, view=(base, kind, par, b))
                self.h.put(ref.id, c)
        return c

    def write_arr(self, ref, new):
        """replace the whole content of the array (in place)"""
        c = self.arr(ref)
        self.lib.note_mut(self, ref)
        if new.dims != c.dims:
            f = A.free_idx(c.dims)
            idx = [f[i] if x == y else A.split_index(A.flat(y, f[i]), x) for i, (x, y) in enumerate(zip(new.dims, c.dims))]
            body = A.at(new, idx)
        else:
            body = new.body
        if c.dt == "int" and new.dt == "float":
            body = nf.mkfn("int", body)
        n = c.with_(body=body)
        self._store_arr(ref, n)

    def _store_arr(self, ref, n):
        view = n.view
        if view is not None:
            base, kind, par, _ = view
            b = self.arr(base)
            if kind == "key":
                nb = A.setitem(b, par, n)
            elif kind in ("reshape", "squeeze"):
                nb = A.reshape(n, [A.sizeof(ax) for ax in b.dims])
                if nb.dims != b.dims:
                    f = A.free_idx(b.dims)
                    idx = [f[i] if x == y else A.split_index(A.flat(y, f[i]), x) for i, (x, y) in enumerate(zip(nb.dims, b.dims))]
                    nb = b.with_(body=A.at(nb, idx))
            else:
                inv = [0] * len(par)
                for i, p in enumerate(par):
                    inv[p] = i
                nb = A.permute(n, inv)
            nb = b.with_(body=nb.body)
            self._store_arr(base, nb)
            n = n.with_(view=(base, kind, par, self.h.get(base.id)))
        self.h.put(ref.id, n)

    def havoc_arr(self, ref, why):
        c = self.arr(ref)
        self.lib.note_mut(self, ref)
        self._store_arr(ref, c.with_(body=nf.sym(f"top#{self._tn()} {why}")))


class CondItem:
    """element of an iteration that is present only under guard g"""
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g, self.v = g, v


class CondListC:
    kind = "condlist"
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def copy(self):
        return CondListC(list(self.items))


class _PhiList:
    """join of lists of different length"""
    kind = "philist"
    __slots__ = ("gs", "cs")

    def __init__(self, gs, cs):
        self.gs, self.cs = gs, cs

    def copy(self):
        return self


class Frame:
    def __init__(self, ref, mod, glo, non, qual):
        self.ref, self.mod, self.globals, self.nonlocals, self.qual = ref, mod, glo, non, qual
        self.captured = False
        self.parentframe = None
        self.clsframe = None
        self.selfval = None
        self.yields = None


def path_of(f, src):
    return os.path.relpath(f.mod.path, os.path.dirname(src)) if f.mod.path else f.mod.name


class ModFrame:
    def __init__(self, mod):
        self.mod, self.ns = mod, mod.ns
        self.qual = None


class ClassFrame:
    def __init__(self, outer, qual):
        self.outer, self.ns, self.mod, self.qual = outer, {}, outer.mod, qual
        self.cls = None


def scope_targets_expr(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for e in t.elts for x in scope_targets_expr(e)]
    if isinstance(t, ast.Starred):
        return scope_targets_expr(t.value)
    return []


def scope_targets(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                out += scope_targets_expr(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            out += scope_targets_expr(n.target)
    return out


def is_num(v):
    return isinstance(v, (bool, int, Num))


def num_poly(v):
    return v.p if isinstance(v, Num) else nf.lift(v)


def num_kind(v):
    if isinstance(v, Num):
        return v.kind
    return "bool" if isinstance(v, bool) else "int"


def num_lib(v):
    return v.lib if isinstance(v, Num) else "py"


def _safe_eq(a, b):
    try:
        if isinstance(a, (Ref, Num, BoundV, ExtV, str, int, bool, tuple)) or a is None:
            return type(a) is type(b) and a == b
    except Exception:
        return False
    return a is b


BINDUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "FloorDiv": "__floordiv__",
             "Mod": "__mod__", "Pow": "__pow__", "MatMult": "__matmul__", "BitAnd": "__and__", "BitOr": "__or__",
             "BitXor": "__xor__", "LShift": "__lshift__", "RShift": "__rshift__"}


def preparse(src):
    """fill the syntax tree cache for every library module"""
    for d, _, fs in os.walk(os.path.join(src, "MuyGPyS")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".py") and p not in _ast_cache:
                try:
                    with open(p, encoding="utf-8") as fh:
                        _ast_cache[p] = ast.parse(fh.read(), p)
                except SyntaxError:
                    pass
