"""C24: predictions from raw data, end to end."""
from .common import *
from .kernels import closed
from .neighbors import query, others
from .. import arr as A

FSETUP = SETUP + """
from MuyGPyS.examples.from_indices import regress_from_indices, posterior_mean_from_indices, posterior_variance_from_indices
from MuyGPyS.examples.regress import do_regress, regress_any, make_regressor
from MuyGPyS.examples.classify import do_classify, classify_any
"""
FEAT = {"rbf": None, "matern": None, "anisotropic": 2, "matern-anisotropic": 2}


def kernel(model, tag=""):
    """text of a kernel and its correlation of two rows (functions of the feature)"""
    l, l0, l1 = (nf.sym(x + tag) for x in ("ell", "e0", "e1"))
    if model == "rbf":
        text = f"RBF(deformation=Isotropy(F2, length_scale=Parameter(ell{tag})))"
        return text, lambda f, u, v: nf.mkexp((ssum(f, lambda k: nf.power(u(k) - v(k), 2)) * nf.power(l, -2)).scale(-HALF))
    if model == "matern":
        text = f"Matern(smoothness=Parameter(1.5), deformation=Isotropy(l2, length_scale=Parameter(ell{tag})))"
        return text, lambda f, u, v: closed("1.5", nf.power(ssum(f, lambda k: nf.power(u(k) - v(k), 2)), HALF) * nf.power(l, -1))
    d2 = lambda u, v: sum((nf.power((u(const(j)) - v(const(j))) * nf.power(e, -1), 2) for j, e in ((0, l0), (1, l1))), ZERO)
    vec = f"VectorParameter(Parameter(e0{tag}), Parameter(e1{tag}))"
    if model == "anisotropic":
        return f"RBF(deformation=Anisotropy(F2, {vec}))", lambda f, u, v: nf.mkexp(d2(u, v).scale(-HALF))
    return (f"Matern(smoothness=Parameter(0.5), deformation=Anisotropy(l2, {vec}))",
            lambda f, u, v: closed("0.5", nf.power(d2(u, v), HALF)))


def params(s, *tags):
    return {x + t: s.num(x + t, positive=True) for t in tags for x in ("ell", "e0", "e1", "eps", "v")}


def posterior(corr, f, n, T, X, Y, NN, tag=""):
    """mean(i, *col) and variance(i) of test row i from its neighbours NN(i, .)"""
    eps, v = nf.sym("eps" + tag), nf.sym("v" + tag)
    row = lambda Z, i: lambda k: Z(i, k)
    K = lambda i, p, q: corr(f, row(X, NN(i, p)), row(X, NN(i, q)))
    k = lambda i, p: corr(f, row(T, i), row(X, NN(i, p)))
    mean = mean_spec(K, k, lambda i, q, *col: Y(NN(i, q), *col), n, lambda i, p: eps)
    quad = quad_spec(K, k, n, lambda i, p: eps)

    def with_col(*a):
        i, col = a[0], a[1:]
        return mean_spec(K, k, lambda j, q, *_: Y(NN(j, q), *col), n, lambda j, p: eps)(i)
    return with_col, lambda i: v * (ONE - quad(i))


def data(s, model, case, r):
    N, M, n, f = dim("N"), dim("M"), dim("n"), dim("f")
    if FEAT[model]:
        f = const(FEAT[model])
    if case == "one-test":
        M = ONE
    if case == "one-neighbour":
        n = ONE
    if case == "one-feature":
        f = ONE
    if case == "tests=neighbours":
        n = M
    train, X = s.inp("train", N, f)
    test, T = s.inp("test", M, f)
    y, Y = s.inp("y", N, *r)
    return N, M, n, f, (train, X), (test, T), (y, Y)


FC = ("generic", "one-test", "one-neighbour", "one-feature", "tests=neighbours")


@rule("C24", "from-indices", [(be, m, cs, t) for be in LOCAL for m in FEAT for cs in FC for t in ("flat", "columns")
                              if (cs != "one-feature" or not FEAT[m]) and (cs == "generic" or m == "rbf" or be == "numpy")],
      "mean and variance of each test point are the kriging formulas of the kernel between the indexed rows of the raw data")
def from_indices(c, backend, model, case, targets):
    s = S(backend)
    r = [dim("r")] if targets == "columns" else []
    N, M, n, f, (train, X), (test, T), (y, Y) = data(s, model, case, r)
    ind, I = s.inp("ind", M, dt="int")
    nn, NN = s.inp("nn", M, n, dt="int")
    text, corr = kernel(model)
    e = s.run(FSETUP + f"""
m = MuyGPS(kernel={text}, noise=HomoscedasticNoise(eps), scale=FixedScale(val=v))
mean, var = regress_from_indices(m, ind, nn, test, train, y)
mean2 = posterior_mean_from_indices(m, ind, nn, test, train, y)
var2 = posterior_variance_from_indices(m, ind, nn, test, train, y)
""", ind=ind, nn=nn, test=test, train=train, y=y, **params(s, ""))
    mu, va = posterior(corr, f, n, lambda i, k: T(I(i), k), X, Y, NN)
    wm, wv = Spec([M, *r], mu), Spec([M], va)
    c.eq("mean", s, e.mean, wm, "regress_from_indices")
    c.eq("variance", s, e.var, wv, "regress_from_indices")
    c.eq("mean-only", s, e.mean2, wm, "posterior_mean_from_indices")
    c.eq("variance-only", s, e.var2, wv, "posterior_variance_from_indices")


def two(s, models):
    """text of a two-response model and its correlations"""
    parts = [kernel(m, t) for m, t in zip(models, "ab")]
    args = ", ".join(f"dict(kernel={p[0]}, noise=HomoscedasticNoise(eps{t}), scale=FixedScale(val=v{t}))" for p, t in zip(parts, "ab"))
    return args, [p[1] for p in parts]


def columns(corrs, f, n, T, X, Y, NN):
    ps = [posterior(k, f, n, T, X, lambda i, m=m: Y(i, const(m)), NN, t) for m, (k, t) in enumerate(zip(corrs, "ab"))]
    pick = lambda col, vals: sum((nf.mkeq(col, const(m)) * v for m, v in enumerate(vals)), ZERO)
    return (lambda i, col: pick(col, [p[0](i) for p in ps])), (lambda i, col: pick(col, [p[1](i) for p in ps]))


@rule("C24", "from-indices-multivariate", [(be, ms, cs) for be in LOCAL for ms in (("rbf", "rbf"), ("anisotropic", "anisotropic"), ("matern", "matern"))
                                           for cs in ("generic", "one-test", "one-neighbour")],
      "column i of a multivariate prediction from indices is the kriging formula of kernel i and response i")
def from_indices_multi(c, backend, models, case):
    s = S(backend)
    N, M, n, f, (train, X), (test, T), (y, Y) = data(s, models[0], case, [const(2)])
    ind, I = s.inp("ind", M, dt="int")
    nn, NN = s.inp("nn", M, n, dt="int")
    args, corrs = two(s, models)
    e = s.run(FSETUP + f"m = MultivariateMuyGPS({args})\nmean, var = regress_from_indices(m, ind, nn, test, train, y)\n",
              ind=ind, nn=nn, test=test, train=train, y=y, **params(s, "a", "b"))
    mu, va = columns(corrs, f, n, lambda i, k: T(I(i), k), X, Y, NN)
    c.eq("mean", s, e.mean, Spec([M, const(2)], mu), "regress_from_indices")
    c.eq("variance", s, e.var, Spec([M, const(2)], va), "regress_from_indices")


@rule("C24", "regression", [(mv, m, cs) for mv in (False, True) for m in ("rbf", "matern", "anisotropic") for cs in ("generic", "one-test", "one-neighbour")],
      "do_regress with fixed hyperparameters predicts every test row from its nearest training rows")
def regression(c, mv, model, case):
    s = S("numpy")
    r = [const(2)] if mv else [dim("r")]
    N, M, n, f, (train, X), (test, T), (y, Y) = data(s, model, case, r)
    if mv:
        args, corrs = two(s, (model, model))
        kw = f"({args})"
    else:
        text, corr = kernel(model)
        kw = f"dict(kernel={text}, noise=HomoscedasticNoise(eps), scale=FixedScale(val=v))"
    e = s.run(FSETUP + f"m, look, mean, var = do_regress(test, train, y, nn_count=n, k_kwargs={kw}, nn_kwargs=dict(nn_method='exact'))\n",
              test=test, train=train, y=y, n=s.size(n), **params(s, *("ab" if mv else [""])))
    NN, _ = query("exact", X, N, f, T, n)
    if mv:
        mu, va = columns(corrs, f, n, T, X, Y, NN)
        c.eq("mean", s, e.mean, Spec([M, *r], mu), "do_regress")
        c.eq("variance", s, e.var, Spec([M, *r], va), "do_regress")
    else:
        mu, va = posterior(corr, f, n, T, X, Y, NN)
        c.eq("mean", s, e.mean, Spec([M, *r], mu), "do_regress")
        c.eq("variance", s, e.var, Spec([M], va), "do_regress")


@rule("C24", "trained-regression", [(mv, cs) for mv in (False, True) for cs in ("flat", "generic", "one-test") if not (mv and cs == "flat")],
      "do_regress with a free length scale predicts with the optimum found and with the scale trained at this optimum on the whole batch")
def trained(c, mv, case):
    s = S("numpy")
    r = [const(2)] if mv else [] if case == "flat" else [ONE]
    N, M, n, f, (train, X), (test, T), (y, Y) = data(s, "rbf", case, r)
    tags = "ab" if mv else [""]
    best = {t: nf.Fraction(3 + 4 * k, 4) for k, t in enumerate(tags)}
    s.I.opt_values = [{"length_scale": best[t]} for t in tags]
    one = lambda t: f"dict(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(1.0, (0.125, 8.0)))), noise=HomoscedasticNoise(eps{t}), scale=AnalyticScale())"
    kw = f"({one('a')}, {one('b')})" if mv else one("")
    e = s.run(FSETUP + f"""
from MuyGPyS.optimize import Bayes_optimize
from MuyGPyS.optimize.loss import mse_fn
m, look, mean, var = do_regress(test, train, y, nn_count=n, batch_count=N, loss_fn=mse_fn, opt_fn=Bayes_optimize, k_kwargs={kw}, nn_kwargs=dict(nn_method='exact'))
""", test=test, train=train, y=y, n=s.size(n), N=s.size(N), **params(s, *tags))
    NN, _ = query("exact", X, N, f, T, n)
    idx, _ = query("exact", X, N, f, X, n + ONE)
    pos = others(n, idx, lambda i: i)
    BN = lambda i, j: idx(i, pos(i, j))
    outs = []
    for k, t in enumerate(tags):
        corr = lambda f_, u, v, l=const(best[t]): nf.mkexp((ssum(f_, lambda q: nf.power(u(q) - v(q), 2)) * nf.power(l, -2)).scale(-HALF))
        col = [const(k)] if mv else []
        Yk = lambda i, *q, col=col: Y(i, *(col or q))
        Kb = lambda i, p, q: corr(f, lambda z: X(BN(i, p), z), lambda z: X(BN(i, q), z))
        resp = lambda i, p: Yk(BN(i, p), *([ZERO] if r and not mv else []))
        scale = ssum(N, lambda i: ssum(n, lambda p: ssum(n, lambda q: resp(i, p) * pinv(Kb, n, lambda i_, p_: nf.sym("eps" + t))(i)(p, q) * resp(i, q)))) * nf.power(N * n, -1)
        mu, va = posterior(corr, f, n, T, X, Yk, NN, t)
        outs.append((mu, lambda i, va=va, scale=scale, t=t: va(i) * nf.power(nf.sym("v" + t), -1) * scale))
    if mv:
        pick = lambda z, col: (lambda i, c_: sum((nf.mkeq(c_, const(m)) * o[z](i) for m, o in enumerate(outs)), ZERO))
        c.eq("mean", s, e.mean, Spec([M, const(2)], pick(0, None)), "do_regress")
        c.eq("variance", s, e.var, Spec([M, const(2)], pick(1, None)), "do_regress")
    else:
        c.eq("mean", s, e.mean, Spec([M, *r], outs[0][0]), "do_regress")
        c.eq("variance", s, e.var, Spec([M], outs[0][1]), "do_regress")


@rule("C24", "classification", [(m, k, cs) for m in ("rbf", "matern", "multivariate") for k in (2, 3) for cs in ("generic", "one-neighbour") if m != "multivariate" or k == 2],
      "a test point whose neighbours all carry one label is given that label; every other point is given its posterior mean", equal=False)
def classification(c, model, classes, case):
    s = S("numpy")
    N, M, n, f, (train, X), (test, T), _ = data(s, "rbf" if model == "multivariate" else model, case, [])
    nn, NN = s.inp("nn", M, n, dt="int")
    lab, Lb = s.inp("lab", N, dt="int")
    k = const(classes)
    hot = lambda i, z: nf.mkeq(Lb(i), z)
    if model == "multivariate":
        args, corrs = two(s, ("rbf", "rbf"))
        text, tags = f"MultivariateMuyGPS({args})", "ab"
        mu, _ = columns(corrs, f, n, T, X, hot, NN)
    else:
        text, corr = kernel(model)
        text, tags = f"MuyGPS(kernel={text}, noise=HomoscedasticNoise(eps), scale=FixedScale(val=v))", [""]
        mu, _ = posterior(corr, f, n, T, X, hot, NN)
    env = dict(test=test, train=train, nn=nn, lab=lab, **params(s, *tags))
    pre = FSETUP + f"""
import numpy as np
class Lookup:
    def get_nns(self, points):
        return nn, None
m = {text}
y = np.where(lab[:, None] == np.arange({classes}), 1.0, 0.0)
near = y[nn]
mixed = [np.max(near[:, :, z], axis=1) != np.min(near[:, :, z], axis=1) for z in range({classes})]
mean = posterior_mean_from_indices(m, np.arange(len(test)), nn, test, train, y)
first = np.where(mixed[0][:, None], mean, near[:, 0, :])
full = first
"""
    if classes > 2:
        pre += "full = np.where(np.logical_or(np.logical_or(mixed[0], mixed[1]), mixed[2])[:, None], mean, near[:, 0, :])\n"
    e = s.run(pre + "some = np.sum(mixed[0]) > 0\n", **env)
    if case == "generic":
        p = s.array(e.some)
        s.fact(p.body)
    e = s.run(pre + "out, timing = classify_any(m, test, train, Lookup(), y)\n", **env)
    c.eq("mean", s, e.mean, Spec([M, k], mu), "posterior_mean_from_indices")
    c.eq_known("labels", s, e.out, s.array(e.full), s.array(e.first), "only the first class decides whether the neighbours' labels are all alike", "classify_any")
