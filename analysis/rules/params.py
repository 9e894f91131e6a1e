"""C12: which hyperparameters are free and what is reported of them; C13: rejected values."""
import itertools
from .common import *
from .scale import broadcast

PSETUP = SETUP + """
from MuyGPyS.gp.deformation import DifferenceIsotropy
from MuyGPyS.gp.hyperparameter import ScalarParam
from MuyGPyS.gp.noise import ShearNoise33
"""
F = nf.Fraction


def value(k):
    """(value, lower, upper) of the k-th parameter, all different and exact in binary"""
    return F(2 * k + 3, 8), F(2 * k + 1, 16), F(k + 5)


def par(k, free):
    v, lo, up = value(k)
    return f"Parameter({float(v)}" + (f", ({float(lo)}, {float(up)}))" if free else ")")


def vec(free):
    return ", ".join(par(k, f) for k, f in enumerate(free))


def family(kind, free):
    """(model text, names in the order of `free`)"""
    n = lambda k: f"noise=HomoscedasticNoise{par(k, free[k])[9:]}"
    if kind in ("rbf", "difference"):
        d = "Isotropy" if kind == "rbf" else "DifferenceIsotropy"
        return f"MuyGPS(RBF(deformation={d}(F2, {par(0, free[0])})), {n(1)})", ["length_scale", "noise"]
    if kind == "matern":
        return f"MuyGPS(Matern(smoothness={par(0, free[0])}, deformation=Isotropy(l2, {par(1, free[1])})), {n(2)})", ["smoothness", "length_scale", "noise"]
    if kind in ("null", "heteroscedastic"):
        m = "NullNoise()" if kind == "null" else "HeteroscedasticNoise(het)"
        return f"MuyGPS(Matern(smoothness={par(0, free[0])}, deformation=Isotropy(l2, {par(1, free[1])})), noise={m})", ["smoothness", "length_scale"]
    if kind == "shear-noise":
        return f"MuyGPS(RBF(deformation=Isotropy(F2, {par(0, free[0])})), noise=ShearNoise33{par(1, free[1])[9:]})", ["length_scale", "noise"]
    k = len(free)
    if kind.startswith("anisotropic"):
        return (f"MuyGPS(RBF(deformation=Anisotropy(F2, VectorParameter({vec(free[:k - 1])}))), {n(k - 1)})",
                [f"length_scale{i}" for i in range(k - 1)] + ["noise"])
    if kind == "matern-anisotropic":
        return (f"MuyGPS(Matern(smoothness={par(k - 1, free[k - 1])}, deformation=Anisotropy(l2, VectorParameter({vec(free[:k - 1])}))), noise=HomoscedasticNoise(0.125))",
                [f"length_scale{i}" for i in range(k - 1)] + ["smoothness"])
    raise KeyError(kind)


FAMILIES = [("rbf", 2), ("difference", 2), ("matern", 3), ("null", 2), ("heteroscedastic", 2), ("shear-noise", 2), ("anisotropic1", 2), ("anisotropic2", 3),
            ("anisotropic3", 4), ("matern-anisotropic", 3)]
SUBSETS = [(k, "".join("x" if f else "-" for f in fs)) for k, n in FAMILIES for fs in itertools.product((True, False), repeat=n)]
SUBSETS += [("anisotropic12", "-x--x-----xxx"), ("anisotropic12", "x" * 13), ("anisotropic12", "-" * 13)]


def reported(c, s, label, names, x0, bounds, want, where):
    """names/x0/bounds list exactly `want`: {name: (value, lower, upper)}, row by row"""
    got = [str(x) for x in s.get_list(names)]
    if sorted(got) != sorted(want):
        return c.bad(label + "names", f"free hyperparameters are reported as {got}, declared free are {sorted(want)}", where)
    c.ok(label + "names")
    if got:
        k = const(len(got))
        row = lambda col: lambda i: sum((nf.mkeq(i, const(j)) * const(want[x][col]) for j, x in enumerate(got)), ZERO)
        c.eq(label + "values", s, x0, Spec([k], row(0)), where)
        c.eq(label + "bounds", s, bounds, Spec([k, const(2)], lambda i, j: nf.mkeq(j, ZERO) * row(1)(i) + nf.mkeq(j, ONE) * row(2)(i)), where)


@rule("C12", "free-parameters", [(be, k, fs) for be in BACKENDS for k, fs in SUBSETS if (be, k) != ("mpi", "heteroscedastic")],
      "get_opt_params lists exactly the hyperparameters declared with bounds, each with its own value and bounds; fixed() iff there are none")
def free_parameters(c, backend, kind, subset):
    s = S(backend)
    free = [x == "x" for x in subset]
    text, names = family(kind, free)
    b, n = dim("b"), dim("n")
    e = s.run(PSETUP + f"""
model = {text}
fixed = model.fixed()
names, x0, bounds = model.get_opt_params()
again, x1, b1 = model.get_opt_params()
flags = [model.kernel._hyperparameters[k].fixed() for k in model.kernel._hyperparameters]
keys = [k for k in model.kernel._hyperparameters]
""", het=s.inp("het", b, n)[0])
    want = {x: value(k) for k, x in enumerate(names) if free[k]}
    reported(c, s, "", e.names, e.x0, e.bounds, want, "MuyGPS.get_opt_params")
    reported(c, s, "again/", e.again, e.x1, e.b1, want, "MuyGPS.get_opt_params")
    c.check("fixed", e.fixed is (not want), f"fixed() is {e.fixed} while the free hyperparameters are {sorted(want)}", "MuyGPS.fixed")
    c.noraise("total", s)


@rule("C12", "replaced-parameters", [(be, k, f) for be in BACKENDS for k in ("scalar", "vector", "smoothness", "noise") for f in ("free", "fixed")],
      "after a hyperparameter is replaced, the new value, bounds and fixedness are what is reported")
def replaced(c, backend, which, to):
    s = S(backend)
    new = "Parameter(1.75" + (", (0.25, 9.0))" if to == "free" else ")")
    aniso = which == "vector"
    d = f"Anisotropy(l2, VectorParameter({vec([True, True])}))" if aniso else f"Isotropy(l2, {par(0, True)})"
    name = dict(scalar="length_scale", vector="length_scale1", smoothness="smoothness", noise="noise")[which]
    change = f"model.noise._set({new})" if which == "noise" else f"model.kernel.set_params({name}={new})"
    e = s.run(PSETUP + f"""
model = MuyGPS(Matern(smoothness={par(2, True)}, deformation={d}), noise=HomoscedasticNoise{par(3, True)[9:]})
{change}
model._make()
names, x0, bounds = model.get_opt_params()
fixed = model.fixed()
""")
    want = {"smoothness": value(2), "noise": value(3)}
    want.update({"length_scale0": value(0), "length_scale1": value(1)} if aniso else {"length_scale": value(0)})
    want.pop(name)
    if to == "free":
        want[name] = (F(7, 4), F(1, 4), F(9))
    reported(c, s, "", e.names, e.x0, e.bounds, want, "KernelFn.set_params")
    c.check("fixed", e.fixed is False, "fixed() although bounded hyperparameters remain", "MuyGPS.fixed")
    c.noraise("total", s)


@rule("C12", "multivariate-fixed", [(be, fs) for be in BACKENDS for fs in ("--", "-x", "x-", "xx", "---", "--x", "x--")],
      "a multivariate model is fixed iff every one of its models is")
def multivariate_fixed(c, backend, flags):
    s = S(backend)
    parts = ", ".join(f"dict(kernel=RBF(deformation=Isotropy(F2, {par(k, f == 'x')})))" for k, f in enumerate(flags))
    e = s.run(PSETUP + f"model = MultivariateMuyGPS({parts})\nfixed = model.fixed()\n")
    c.check("fixed", e.fixed is ("x" not in flags), f"fixed() is {e.fixed} for models with free flags {flags}", "MultivariateMuyGPS.fixed")
    c.noraise("total", s)


@rule("C12", "hierarchical", [(be, k, fs, nz) for be in LOCAL for k in (2, 3) for fs in ("all", "none", "first", "last") for nz in ("free", "fixed")],
      "every bounded knot of a hierarchical length scale is a free hyperparameter under its own name, and fixed() follows the knots")
def hierarchical(c, backend, k, which, noise):
    s = S(backend)
    free = [which == "all" or which == "first" and i == 0 or which == "last" and i == k - 1 for i in range(k)]
    e = s.run(PSETUP + f"""
from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParameter
h = HierarchicalParameter(feats, VectorParameter({vec(free)}), RBF(deformation=Isotropy(F2, Parameter(1.0))))
model = MuyGPS(RBF(deformation=Isotropy(F2, h)), noise=HomoscedasticNoise{par(9, noise == 'free')[9:]})
names, x0, bounds = model.get_opt_params()
fixed = model.fixed()
own = model.kernel.deformation.length_scale.fixed()
base = h.fixed()
""", feats=s.inp("feats", const(k), dim("f"))[0])
    want = {f"length_scale{i}": value(i) for i in range(k) if free[i]}
    none = not want
    if noise == "free":
        want["noise"] = value(9)
    reported(c, s, "", e.names, e.x0, e.bounds, want, "NamedHierarchicalParameter.append_lists")
    c.check("fixed", e.fixed is (not want), f"fixed() is {e.fixed} while the free hyperparameters are {sorted(want)}", "MuyGPS.fixed")
    for lab, v in (("parameter", e.own), ("unnamed", e.base)):
        c.check("fixed/" + lab, v is none, f"fixed() is {v}, free knots: {[i for i in range(k) if free[i]]}", "NamedHierarchicalParameter.fixed")
    c.noraise("total", s)


# ------------------------------------------------------------------ C13
OWNERS = {
    "Parameter": ("p = Parameter(v, (lo, up))", "p"),
    "noise": ("p = HomoscedasticNoise(v, (lo, up))", "p"),
    "shear-noise": ("p = ShearNoise33(v, (lo, up))", "p"),
    "length-scale": ("p = Isotropy(l2, Parameter(v, (lo, up))).length_scale", "p"),
    "vector": ("p = Anisotropy(l2, VectorParameter(Parameter(1.0), Parameter(v, (lo, up)))).length_scale._params[1]", "p"),
}
SETTERS = {"set-value": "p._set_val(v)"}
TOL = F(1, 10 ** 4)


def bounded(s, case):
    """symbolic value and bounds in the given relation"""
    lo, w, d = (s.num(x, positive=True) for x in ("lo", "w", "d"))
    L_, W, D = nf.sym("lo"), nf.sym("w"), nf.sym("d")
    num = lambda p: mknum(p, "float")
    if case == "inside":      # lo + w*t, 0 <= t <= 1
        return num(L_ + W), num(L_), num(L_ + W + D)
    if case == "at-lower":
        return num(L_), num(L_), num(L_ + W)
    if case == "at-upper":
        return num(L_ + W), num(L_), num(L_ + W)
    if case == "below":
        return num(L_), num(L_ + D + const(TOL)), num(L_ + D + W + const(TOL))
    if case == "above":
        return num(L_ + W + D + const(TOL)), num(L_), num(L_ + W)
    if case == "reversed":
        return num(L_ + W), num(L_ + W + D), num(L_)
    if case == "the-only-one":
        return num(L_), num(L_), num(L_)
    if case == "below-the-only-one":
        return num(L_), num(L_ + D + const(TOL)), num(L_ + D + const(TOL))
    if case == "above-the-only-one":
        return num(L_ + D + const(TOL)), num(L_), num(L_)


@rule("C13", "bounds", [(be, o, cs) for be in BACKENDS for o in OWNERS for cs in ("inside", "at-lower", "at-upper", "below", "above", "reversed",
                           "the-only-one", "below-the-only-one", "above-the-only-one")],
      "a bounded hyperparameter takes exactly the values inside its bounds and rejects values outside and reversed bounds")
def bounds(c, backend, owner, case):
    s = S(backend)
    v, lo, up = bounded(s, case)
    text, _ = OWNERS[owner]
    run = lambda: s.run(PSETUP + text + "\nval = p()\nbnd = p.get_bounds()\nfx = p.fixed()\n", v=v, lo=lo, up=up)
    if case.startswith(("below", "above", "reversed")):
        return c.raises("rejected", s, run, ("ValueError",), "Parameter")
    e = run()
    c.eq("value", s, e.val, v, "Parameter._set_val")
    for x, w, lab in zip(s.get_list(e.bnd), (lo, up), ("lower", "upper")):
        c.eq(lab, s, x, w, "Parameter._set_bounds")
    c.check("free", e.fx is False, "a bounded hyperparameter reports to be fixed", "Parameter.fixed")
    c.noraise("total", s)


@rule("C13", "set-value", [(be, o, cs) for be in BACKENDS for o in OWNERS for cs in ("inside", "at-lower", "at-upper", "below", "above", "the-only-one", "below-the-only-one", "above-the-only-one")],
      "a later assignment is validated against the same bounds and a rejected one leaves the value as it was")
def set_value(c, backend, owner, case):
    s = S(backend)
    v, lo, up = bounded(s, case)
    text, _ = OWNERS[owner]
    e = s.run(PSETUP + f"""
first = lo + (up - lo) / 2
{text.replace('(v, ', '(first, ')}
try:
    p._set_val(v)
    ok = True
except ValueError:
    ok = False
val = p()
""", v=v, lo=lo, up=up)
    good = not case.startswith(("below", "above"))
    c.check("accepted" if good else "rejected", e.ok is good, f"a value {case} the bounds is {'rejected' if good else 'accepted'}", "Parameter._set_val")
    c.eq("value", s, e.val, v if good else e.first, "Parameter._set_val")


@rule("C13", "fixed-value", [(be,) for be in BACKENDS], "a fixed hyperparameter keeps any number it is given")
def fixed_value(c, backend):
    s = S(backend)
    e = s.run(PSETUP + "p = Parameter(v)\nval = p()\nfx = p.fixed()\nq = Parameter(v, 'fixed')\nvq = q()\n", v=s.num("v"))
    c.eq("value", s, e.val, nf.sym("v"), "Parameter")
    c.eq("value/keyword", s, e.vq, nf.sym("v"), "Parameter")
    c.check("fixed", e.fx is True, "a parameter without bounds is not fixed", "Parameter.fixed")
    c.noraise("total", s)


REJECTED = {
    "value/list": "Parameter([1.0, 2.0])", "value/tuple": "Parameter((1.0,), (0.5, 2.0))", "value/unknown-prompt": "Parameter('smaple', (0.5, 2.0))",
    "value/sample-fixed": "Parameter('sample')", "value/log-sample-fixed": "Parameter('log_sample', 'fixed')",
    "value/vector": "Parameter(np.ones(3))", "bounds/prompt": "Parameter(1.0, 'fxied')", "bounds/number": "Parameter(1.0, 2.0)",
    "bounds/one": "Parameter(1.0, (0.5,))", "bounds/three": "Parameter(1.0, (0.5, 1.0, 2.0))", "bounds/string-lower": "Parameter(1.0, ('0.5', 2.0))",
    "bounds/string-upper": "Parameter(1.0, (0.5, '2.0'))", "bounds/list-lower": "Parameter(1.0, ([0.5], 2.0))",
    "noise/negative-lower": "HomoscedasticNoise(0.5, (-0.25, 1.0))", "noise/negative-both": "HomoscedasticNoise(-0.5, (-1.0, -0.25))",
    "noise/sample-fixed": "HomoscedasticNoise('sample')",
    "noise/heteroscedastic-string": "HeteroscedasticNoise('sample')", "noise/heteroscedastic-number": "HeteroscedasticNoise(0.5)",
    "noise/heteroscedastic-negative": "HeteroscedasticNoise(np.array([[0.5, -0.25], [0.125, 1.0]]))",
    "scale/zero": "FixedScale(val=0.0)", "scale/negative": "AnalyticScale(val=-1.0)", "scale/list": "FixedScale(val=[1.0])",
    "scale/vector": "FixedScale(val=np.ones(2))", "scale/downsample-negative": "DownSampleScale(val=-2.0)",
    "scale/down-count-float": "DownSampleScale(down_count=2.5)", "scale/down-count-negative": "DownSampleScale(down_count=-1)",
    "scale/down-count-zero": "DownSampleScale(down_count=0)", "scale/iterations-zero": "DownSampleScale(iteration_count=0)",
    "scale/iterations-negative": "DownSampleScale(iteration_count=-3)", "scale/iterations-float": "DownSampleScale(iteration_count=1.5)",
    "isotropy/vector": "Isotropy(l2, VectorParameter(Parameter(1.0), Parameter(2.0)))", "isotropy/number": "Isotropy(l2, 1.0)",
    "difference/number": "DifferenceIsotropy(l2, 1.0)",
}


@rule("C13", "rejected", [(be, k) for be in BACKENDS for k in REJECTED], "malformed hyperparameters are rejected with ValueError")
def rejected(c, backend, k):
    s = S(backend)
    c.raises("rejected", s, lambda: s.run(PSETUP + "import MuyGPyS._src.math as np\nx = " + REJECTED[k] + "\n"), ("ValueError",), k)


@rule("C13", "scale-assignment", [(be, k, cs) for be in BACKENDS for k in ("FixedScale", "AnalyticScale", "DownSampleScale") for cs in ("positive", "zero", "negative")],
      "a scale accepts every positive number, is trained only by assignment, and rejects the others keeping its value")
def scale_assignment(c, backend, kind, case):
    s = S(backend)
    new = {"positive": s.num("new", positive=True), "zero": mknum(ZERO, "float"), "negative": mknum(-nf.sym("new"), "float")}[case]
    if case == "negative":
        s.num("new", positive=True)
    e = s.run(PSETUP + f"""
p = {kind}(val=old)
t0 = p.trained
try:
    p._set(new)
    ok = True
except ValueError:
    ok = False
val = p()
t1 = p.trained
""", old=s.num("old", positive=True), new=new)
    good = case == "positive"
    c.check("accepted", e.ok is good, f"a {case} scale is {'rejected' if good else 'accepted'}", "ScaleFn._set")
    c.eq("value", s, e.val, nf.sym("new" if good else "old"), "ScaleFn._set")
    c.check("trained", (e.t0, e.t1) == (False, good), f"trained is {e.t0} before and {e.t1} after", "ScaleFn.trained")


@rule("C13", "sampled", [(be, k) for be in BACKENDS for k in ("sample", "log_sample")],
      "a sampled start value is drawn between the bounds (uniformly, or uniformly in the logarithm), the same one on all ranks")
def sampled(c, backend, how):
    s = S(backend)
    lo, w = s.num("lo", positive=True), s.num("w", positive=True)
    up = mknum(nf.sym("lo") + nf.sym("w"), "float")
    e = s.run(PSETUP + f"p = Parameter('{how}', (lo, up))\nval = p()\nbnd = p.get_bounds()\n", lo=lo, up=up)
    ev = [x for x in s.I.events if x["kind"] == "random"]
    c.check("one-draw", len(ev) == 1, f"{len(ev)} random draws", "Parameter._sample_val")
    for x, w_, lab in zip(s.get_list(e.bnd), (lo, up), ("lower", "upper")):
        c.eq(lab, s, x, w_, "Parameter._set_bounds")
    u = nf.mkel(f"rand#uniform{s.I.rng}", [])
    L_, W = nf.sym("lo"), nf.sym("w")
    draw = L_ + W * u if how == "sample" else nf.mkexp(nf.mkfn("log", L_) + (nf.mkfn("log", L_ + W) - nf.mkfn("log", L_)) * u)
    c.eq("value", s, e.val, broadcast(s).fn(s.I, [mknum(draw, "float")], {}), "Parameter._sample_val")
