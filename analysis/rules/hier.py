"""C26: hierarchical length scales are predictions of their higher-level process at the batch."""
from .common import *

HSETUP = SETUP + """
from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParameter, NamedHierarchicalParam
def low(kern):
    return RBF(deformation=Isotropy(F2, length_scale=Parameter(h))) if kern == "rbf" else Matern(smoothness=Parameter(0.5), deformation=Isotropy(F2, length_scale=Parameter(h)))
def hier(kern, *vals):
    params = VectorParameter(*[Parameter(v) for v in vals])
    return HierarchicalParameter(knots, params, low(kern), noise=HomoscedasticNoise(eps)) if NOISE else HierarchicalParameter(knots, params, low(kern))
"""


def cov(kern, h, x, y, f):
    d = ssum(f, lambda k: nf.power(x(k) - y(k), 2))
    return nf.mkexp(-(d * nf.power(h, -2)).scale(HALF)) if kern == "rbf" else nf.mkexp(-d * nf.power(h, -2))


def field(kern, k, f, X, batch, eps, vals, h):
    """value of the length scale at row i of the batch"""
    from fractions import Fraction
    V = inverse(k, lambda p, q: cov(kern, h, lambda z: X(p, z), lambda z: X(q, z), f) + nf.mkeq(p, q) * eps)

    def at(i):
        return ssum(k, lambda p: ssum(k, lambda q: cov(kern, h, lambda z: batch(i, z), lambda z: X(p, z), f) * V(p, q) * vals(q)))
    return at


KERNS = ("rbf", "matern")
HC = ("generic", "batch1", "knot1", "batch=knots", "one-feature")


def build(s, case, nk):
    """symbolic batch, knots and their values"""
    b, f = dim("b"), dim("f")
    k = const(nk)
    if case == "batch1":
        b = ONE
    if case == "batch=knots":
        b = k
    if case == "one-feature":
        f = ONE
    X = s.inp("knots", k, f)
    B = s.inp("batch", b, f)
    names = [f"v{i}" for i in range(nk)]
    for x in (*names, "h", "eps"):
        s.num(x, positive=True)
    env = {x: s.num(x, positive=True) for x in (*names, "h", "eps")}
    env.update(knots=X[0], batch=B[0], NOISE=True)
    return b, f, k, X[1], B[1], names, env


def pick(names):
    return lambda q: sum((nf.mkeq(q, const(i)) * nf.sym(x) for i, x in enumerate(names)), ZERO)


@rule("C26", "values", [(be, kn, cs) for be in LOCAL for kn in KERNS for cs in HC if cs != "knot1"],
      "the length scale at a batch row is K(row, knots) (K(knots, knots) + noise)^-1 times the knot values, trial knot values taking the place of the stored ones")
def values(c, backend, kern, case):
    s = S(backend)
    nk = 3 if case == "generic" else 2
    b, f, k, X, B, names, env = build(s, case, nk)
    env["t0"] = s.num("t0", positive=True)
    env["elsewhere"] = s.inp("elsewhere", b, f)[0]
    e = s.run(HSETUP + f"""
p = NamedHierarchicalParam("length_scale", hier({kern!r}, {', '.join(names)}))
other = p(elsewhere, length_scale0=2 * t0)
out, trial = p(batch), p(batch, length_scale0=t0)
""", **env)
    for lab, got, v in (("stored", e.out, names), ("trial", e.trial, ["t0"] + names[1:])):
        at = field(kern, k, f, X, B, nf.sym("eps"), pick(v), nf.sym("h"))
        c.eq(lab, s, got, at(ZERO) if b is ONE else Spec([b], at), "NamedHierarchicalParameter.__call__")


@rule("C26", "default-noise", [(be,) for be in LOCAL], "the higher-level process has noise 1e-5 unless one is given")
def default_noise(c, backend):
    s = S(backend)
    b, f, k, X, B, names, env = build(s, "generic", 2)
    env["NOISE"] = False
    e = s.run(HSETUP + f"out = NamedHierarchicalParam('length_scale', hier('rbf', {', '.join(names)}))(batch)\n", **env)
    from fractions import Fraction
    c.eq("value", s, e.out, Spec([b], field("rbf", k, f, X, B, const(Fraction(1, 10 ** 5)), pick(names), nf.sym("h"))), "HierarchicalParameter")


@rule("C26", "kernels", [(be, kn, m, cs) for be in LOCAL for kn in ("RBF", "Matern05", "Matern15") for m in ("F2", "l2") for cs in ("pairwise", "crosswise", "trial", "batch1")],
      "every batch row's covariances use that row's own length scale")
def kernels(c, backend, kn, m, case):
    s = S(backend)
    b, f, k, X, B, names, env = build(s, "batch1" if case == "batch1" else "generic", 2)
    n = dim("n")
    dims = [b, n] if case == "crosswise" else [b, n, n]
    env["d_"], D = s.inp("d_", *dims)
    env["d2_"], env["elsewhere"] = s.inp("d2_", *dims)[0], s.inp("elsewhere", b, f)[0]
    nf.POSITIVE_SYMS.add("d_")
    env["t0"] = s.num("t0", positive=True)
    cls = dict(RBF="RBF(", Matern05="Matern(smoothness=Parameter(0.5), ", Matern15="Matern(smoothness=Parameter(1.5), ")[kn]
    kw = ", length_scale0=t0" if case == "trial" else ""
    fn = "q.get_opt_fn()" if case == "trial" else "q"
    e = s.run(HSETUP + f"""
q = {cls}deformation=Isotropy({m}, length_scale=hier('rbf', {', '.join(names)})))
p = NamedHierarchicalParam("length_scale", hier('rbf', {', '.join(names)}))
other = {fn}(d2_, batch_features=elsewhere)
K = {fn}(d_, batch_features=batch{kw})
""", **env)
    nf.POSITIVE_SYMS.discard("d_")
    at = field("rbf", k, f, X, B, nf.sym("eps"), pick(["t0"] + names[1:] if case == "trial" else names), nf.sym("h"))

    def cov_(*i):
        L = at(i[0])
        d = D(*i)
        r = d * (nf.power(L * L, -1) if m == "F2" else nf.power(L, -1))
        if kn == "RBF":
            return nf.mkexp(-r.scale(HALF))
        if kn == "Matern05":
            return nf.mkexp(-r)
        q3 = nf.power(const(3), HALF)
        return (ONE + q3 * r) * nf.mkexp(-q3 * r)
    c.eq("covariance", s, e.K, Spec(dims, cov_), "NamedHierarchicalParameter.apply_embedding_fn")


@rule("C26", "deformation", [(be, m, sh) for be in LOCAL for m in ("F2", "l2") for sh in ("pairwise", "crosswise")],
      "an isotropic deformation called with the batch's features divides every row by that row's own length scale")
def deformation(c, backend, m, shape):
    s = S(backend)
    b, f, k, X, B, names, env = build(s, "generic", 2)
    n = dim("n")
    dims = [b, n] if shape == "crosswise" else [b, n, n]
    env["d_"], D = s.inp("d_", *dims)
    e = s.run(HSETUP + f"o = Isotropy({m}, length_scale=hier('rbf', {', '.join(names)}))(d_, batch_features=batch)\n", **env)
    at = field("rbf", k, f, X, B, nf.sym("eps"), pick(names), nf.sym("h"))
    c.eq("value", s, e.o, Spec(dims, lambda *i: D(*i) * nf.power(at(i[0]), -2 if m == "F2" else -1)), "Isotropy.__call__")


@rule("C26", "objective", [(be, o) for be in NT + ("jax",) for o in ("mse_fn", "lool_fn")],
      "the optimisation objective evaluates the length scale at the batch with the trial knot values")
def objective(c, backend, loss):
    s = S(backend)
    b, f, k, X, B, names, env = build(s, "generic", 2)
    n = dim("n")
    for x, z in (("pd", (b, n, n)), ("cd", (b, n)), ("y", (b, n)), ("t", (b,))):
        env[x] = s.inp(x, *z)[0]
    env["t0"] = s.num("t0", positive=True)
    e = s.run(HSETUP + f"""
from MuyGPyS.optimize import Bayes_optimize
from MuyGPyS.optimize.loss import mse_fn, lool_fn
def model(*v):
    return MuyGPS(RBF(deformation=Isotropy(F2, length_scale=hier('rbf', *v))), noise=HomoscedasticNoise(0.25))
obj = Bayes_optimize.make_obj_fn(model({', '.join(names)}), t, y, cd, pd, batch_features=batch, loss_fn={loss})
first = obj(length_scale0=2 * t0, length_scale1=3 * t0)
got = obj(length_scale0=t0)
m = model(t0, {', '.join(names[1:])})
Kin, Kcross = m.kernel(pd, batch_features=batch), m.kernel(cd, batch_features=batch)
mean = m.posterior_mean(Kin, Kcross, y)
want = -mse_fn(mean, t) if {loss == 'mse_fn'} else -lool_fn(mean, t, m.posterior_variance(Kin, Kcross), m.scale())
""", **env)
    c.eq("score", s, e.got, s.array(e.want), "make_loo_crossval_fn")


@rule("C26", "rejected", [("more",), ("fewer",)], "knots and knot values must be equally many")
def rejected(c, what):
    s = S("numpy")
    b, f, k, X, B, names, env = build(s, "generic", 2)
    c.raises(what, s, lambda: s.run(HSETUP + "p = hier('rbf', %s)\n" % ("v0, v1, v0" if what == "more" else "v0"), **env), ("ValueError",), "HierarchicalParameter")
