"""C18: every module, name and call of the library resolves under every backend."""
import ast
import builtins
import json
import os

from .common import *
from .. import check
from ..values import AbsRaise, ClsV, ExtV, FnV, ModV

with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "api.json"), encoding="utf-8") as _f:
    API = {k: set(v) for k, v in json.load(_f).items()}   # public members of the third-party modules of the pinned versions
OPT = ("hnswlib", "bayes_opt")


def modules():
    """names of the library's modules, without tests and without scripts run by hand"""
    out = []
    root = os.path.join(check.SRC, "MuyGPyS")
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "_test"))
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.relpath(os.path.join(d, f), check.SRC)[:-3].replace(os.sep, ".")
                out.append(p[:-len(".__init__")] if p.endswith(".__init__") else p)
    return out


def applies(m, be):
    """modules that belong to one backend are only loaded by it (mpi runs on numpy's)"""
    parts = m.split(".")
    if m in ("MuyGPyS._src.jaxconfig", "MuyGPyS._src.config"):
        return False
    if "_src" in parts and parts[-1] in ("numpy", "torch", "jax", "mpi"):
        return parts[-1] == be or (be == "mpi" and parts[-1] == "numpy")
    if m.endswith("_src.mpi_utils"):
        return True
    if parts[1:2] == ["torch"] or parts[-1] == "muygps_torch":
        return be == "torch"
    return True


def load(s, m):
    """-> module value, or the failure text"""
    try:
        return s.I.import_module(m), None
    except AbsRaise as e:
        return None, str(e)


class Scope(ast.NodeVisitor):
    """names bound anywhere in one function (not in nested ones)"""
    def __init__(self):
        self.bound, self.glob = set(), set()

    def run(self, node):
        a = node.args
        for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg):
            if x is not None:
                self.bound.add(x.arg)
        for st in node.body if isinstance(node.body, list) else [node.body]:
            self.visit(st)
        return self.bound - self.glob

    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.bound.add(n.id)

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in (*n.decorator_list, *n.args.defaults, *(x for x in n.args.kw_defaults if x)):
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Global(self, n):
        self.glob.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)


def top_names(tree):
    """names bound anywhere at module level, in branches of other configurations too"""
    w = Scope()
    for st in tree.body:
        w.visit(st)
    return w.bound


BUILTINS = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__class__"}


def params(fn, bound):
    a = fn.node.args
    pos = [x.arg for x in (*a.posonlyargs, *a.args)]
    need = pos[:len(pos) - len(a.defaults)]
    if bound:
        need, pos = need[1:], pos[1:]
    kwn = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, need, {x.arg for x in a.kwonlyargs}, kwn, a.vararg is not None, a.kwarg is not None


def binds(fn, call, bound):
    """text of the first mismatch between a call and a signature"""
    pos, need, kwo, kwn, va, kw = params(fn, bound)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    names = [k.arg for k in call.keywords if k.arg]
    count = len(call.args)
    if not star and not va and count > len(pos):
        return f"takes {len(pos)} positional arguments, {count} are given"
    for k in names:
        if k not in pos and k not in kwo and not kw:
            return f"has no parameter {k!r}"
        if not star and k in pos[:count]:
            return f"gets parameter {k!r} twice"
    if not star and not dstar:
        for k in (*need[count:], *kwn):
            if k not in names:
                return f"misses its parameter {k!r}"
    return None


class Walk(ast.NodeVisitor):
    def __init__(self, c, s, mod, where):
        self.c, self.s, self.mod, self.where = c, s, mod, where
        self.stack, self.cls, self.fn = [], [], []
        self.names = self.attrs = self.calls = self.tries = 0
        self.known = BUILTINS | set(mod.ns)

    def module(self, tree):
        self.known |= top_names(tree)
        for st in tree.body:
            self.visit(st)

    # ---- scopes
    def local(self, name):
        return any(name in b for b in self.stack)

    def func(self, node):
        self.stack.append(Scope().run(node))
        self.fn.append(getattr(node, "name", "lambda"))
        for st in node.body if isinstance(node.body, list) else [node.body]:
            self.visit(st)
        self.fn.pop()
        self.stack.pop()

    def visit_FunctionDef(self, n):
        for d in (*n.decorator_list, *n.args.defaults, *(x for x in n.args.kw_defaults if x)):
            self.visit(d)
        self.func(n)

    def visit_Lambda(self, n):
        for d in (*n.args.defaults, *(x for x in n.args.kw_defaults if x)):
            self.visit(d)
        self.func(n)

    def visit_ClassDef(self, n):
        for d in (*n.decorator_list, *n.bases):
            self.visit(d)
        self.cls.append(n.name)
        members = {x.name for x in n.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
        members |= {t.id for x in n.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
        for x in n.body:
            if isinstance(x, ast.FunctionDef):
                self.visit(x)
            else:
                self.stack.append(members)
                self.visit(x)
                self.stack.pop()
        self.cls.pop()

    def comp(self, n):
        b = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.stack.append(b)
        self.generic_visit(n)
        self.stack.pop()

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

    def visit_AnnAssign(self, n):
        self.visit(n.target)
        if n.value:
            self.visit(n.value)

    def at(self):
        return self.where + " in " + ".".join([*self.cls, *self.fn] or ["module"])

    # ---- obligations
    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Load) or self.local(n.id):
            return
        self.names += 1
        if n.id not in self.known:
            self.c.bad(f"name/{self.mod.name}/{n.id}", f"line {n.lineno}: name {n.id!r} is not defined", self.at())

    def value(self, e):
        """value of a module-level name or of a dotted path through modules"""
        if isinstance(e, ast.Name):
            return None if self.local(e.id) else self.mod.ns.get(e.id)
        if isinstance(e, ast.Attribute):
            v = self.value(e.value)
            if isinstance(v, ModV):
                return v.ns.get(e.attr)
            if isinstance(v, ExtV) and v.path in API:
                return ExtV(v.path + "." + e.attr)
        return None

    def visit_Attribute(self, n):
        v = self.value(n.value)
        if isinstance(v, ModV) and v.path is not None:
            self.attrs += 1
            if n.attr not in v.ns:
                self.c.bad(f"attribute/{self.mod.name}/{n.attr}", f"line {n.lineno}: {v.name} has no {n.attr!r}", self.at())
        if isinstance(v, ExtV) and v.path in API and not self.tries:
            self.attrs += 1
            if n.attr not in API[v.path] and not n.attr.startswith("_") and v.path + "." + n.attr not in API:
                self.c.bad(f"member/{self.mod.name}/{n.attr}", f"line {n.lineno}: {v.path} has no {n.attr!r}", self.at())
        self.generic_visit(n)

    def visit_ImportFrom(self, n):
        if n.level or n.module not in API or self.tries:
            return
        for a in n.names:
            self.attrs += 1
            if a.name != "*" and a.name not in API[n.module] and not a.name.startswith("_") and f"{n.module}.{a.name}" not in API:
                self.c.bad(f"member/{self.mod.name}/{a.name}", f"line {n.lineno}: {n.module} has no {a.name!r}", self.at())

    def visit_Try(self, n):
        self.tries += 1
        for x in n.body:
            self.visit(x)
        self.tries -= 1
        for x in (*n.handlers, *n.orelse, *n.finalbody):
            self.visit(x)

    def visit_Call(self, n):
        v = self.value(n.func)
        fn, bound, label = None, False, None
        if isinstance(v, FnV) and not v.attrs.get("wrapped"):
            fn, label = v, v.qual
        elif isinstance(v, ClsV):
            init = self.method(v, "__init__")
            if init is not None:
                fn, bound, label = init, True, v.name
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and len(self.cls) == 1:
            k = self.mod.ns.get(self.cls[0])
            if isinstance(k, ClsV):
                m = self.method(k, n.func.attr)
                if m is not None and not m.node.decorator_list:
                    fn, bound, label = m, True, f"{k.name}.{n.func.attr}"
        if fn is not None:
            self.calls += 1
            why = binds(fn, n, bound)
            if why:
                self.c.bad(f"call/{self.mod.name}/{label}", f"line {n.lineno}: {label} {why}", self.at())
        self.generic_visit(n)

    def method(self, k, name):
        m = k.find(name)[0]
        return m if isinstance(m, FnV) else None


@rule("C18", "modules", [(be,) for be in BACKENDS], "every library module loads: each import names an existing module member in this backend")
def load_all(c, backend):
    for m in modules():
        if not applies(m, backend):
            continue
        s = S(backend, enabled=OPT)
        mod, why = load(s, m)
        if mod is None:
            c.bad("import/" + m, f"import fails under {backend}: {why}", m)
        else:
            c.ok("import/" + m)


@rule("C18", "names", [(be,) for be in BACKENDS],
      "every global name, every member of a library module, and every call of a library function or class used in any function exists and binds in this backend")
def names(c, backend):
    s = S(backend, enabled=OPT)
    for m in modules():
        if not applies(m, backend):
            continue
        mod, why = load(s, m)
        if mod is None or mod.path is None:
            continue
        with open(mod.path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), mod.path)
        w = Walk(c, s, mod, os.path.relpath(mod.path, os.path.dirname(check.SRC)))
        w.module(tree)
        c.ok(f"{m}: {w.names} names, {w.attrs} members, {w.calls} calls")
