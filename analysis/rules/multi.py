"""C14: the multivariate model is one independent univariate model per response."""
from .common import *
from .common import pinv
from .fast import coeff_spec
from .scale import quad_sum, eqnum
from .loss import over_ranks

KERNELS = {
    "rbf": ("RBF(deformation=Isotropy(F2, length_scale=Parameter(ell{i})))", lambda T, l: (lambda *i: nf.mkexp((T(*i) * nf.power(l, -2)).scale(-HALF)))),
    "matern": ("Matern(smoothness=Parameter(0.5), deformation=Isotropy(F2, length_scale=Parameter(ell{i})))", lambda T, l: (lambda *i: nf.mkexp(-(T(*i) * nf.power(l, -2))))),
}
pick = lambda col, vals: sum((nf.mkeq(lift(col), const(m)) * v for m, v in enumerate(vals)), ZERO)


def models(s, m, mixed, scale="FixedScale"):
    pos = lambda k: s.num(k, positive=True)
    kinds = ["matern" if mixed and i % 2 else "rbf" for i in range(m)]
    text = "MultivariateMuyGPS(" + ", ".join(
        f"dict(kernel={KERNELS[k][0].format(i=i)}, noise=HomoscedasticNoise(eps{i}), scale={scale}(val=s{i}))" for i, k in enumerate(kinds)) + ")"
    env = {f"{x}{i}": pos(f"{x}{i}") for x in ("ell", "eps", "s") for i in range(m)}
    return text, env, kinds


SHAPES = ("generic", "batch1", "one-neighbour", "batch=neighbours", "all-one")


@rule("C14", "prediction", [(be, cs, m, mx) for be in BACKENDS for cs in SHAPES + ("responses=neighbours", "responses=batch") for m in (1, 2, 3) for mx in (False, True)
                            if (m > 1 or not mx) and (cs == "generic" or m == 2 and not mx)],
      "column i of mean and variance is what model i alone predicts from column i of the targets, with its own kernel, noise and scale")
def prediction(c, backend, case, m, mixed):
    s = S(backend)
    b, n = dim("b"), dim("n")
    if case in SHAPES:
        b, n, _ = sizes(case)
    elif case == "responses=neighbours":
        n = const(m)
    else:
        b = const(m)
    pw, P = s.inp("pw", b, n, n, sym=(1, 2))
    cr, Q = s.inp("cr", b, n)
    y, Y = s.inp("y", b, n, const(m))
    text, env, kinds = models(s, m, mixed)
    e = s.run(SETUP + f"""
model = {text}
mean = model.posterior_mean(pw, cr, y)
var = model.posterior_variance(pw, cr)
""", pw=pw, cr=cr, y=y, **env)

    def part(j):
        k = KERNELS[kinds[j]][1]
        Kp, Kc = k(P, nf.sym(f"ell{j}")), k(Q, nf.sym(f"ell{j}"))
        V = pinv(Kp, n, lambda i, p: nf.sym(f"eps{j}"))
        quad = lambda i, right: ssum(n, lambda p: ssum(n, lambda q: Kc(i, p) * V(i)(p, q) * right(i, q)))
        return (lambda i: quad(i, lambda i, q: Y(i, q, const(j)))), (lambda i: nf.sym(f"s{j}") * (ONE - quad(i, Kc)))
    parts = [part(j) for j in range(m)]
    c.eq("mean", s, e.mean, Spec([b, const(m)], lambda i, col: pick(col, [f(i) for f, _ in parts])), "MultivariateMuyGPS.posterior_mean")
    c.eq("variance", s, e.var, Spec([b, const(m)], lambda i, col: pick(col, [g(i) for _, g in parts])), "MultivariateMuyGPS.posterior_variance")
    c.noraise("total", s)


@rule("C14", "fast-prediction", [(be, cs, m) for be in LOCAL for cs in SHAPES for m in (1, 2, 3) if cs == "generic" or m == 2],
      "the same for the fast coefficients and the fast mean")
def fast_prediction(c, backend, case, m):
    s = S(backend)
    b, n, _ = sizes(case)
    pw, P = s.inp("pw", b, n, n, sym=(1, 2))
    cr, Q = s.inp("cr", b, n)
    y, Y = s.inp("y", b, n, const(m))
    co, C = s.inp("co", b, n, const(m))
    text, env, kinds = models(s, m, m > 1)
    e = s.run(SETUP + f"model = {text}\nout = model.fast_coefficients(pw, y)\nmean = model.fast_posterior_mean(cr, co)\n", pw=pw, cr=cr, y=y, co=co, **env)
    ker = lambda j, T: KERNELS[kinds[j]][1](T, nf.sym(f"ell{j}"))
    cs = [coeff_spec(ker(j, P), (lambda j: lambda i, q: Y(i, q, const(j)))(j), n, (lambda j: lambda i, p: nf.sym(f"eps{j}"))(j)) for j in range(m)]
    c.eq("coefficients", s, e.out, Spec([b, n, const(m)], lambda i, p, col: pick(col, [f(i, p) for f in cs])), "MultivariateMuyGPS.fast_coefficients")
    c.eq("mean", s, e.mean, Spec([b, const(m)], lambda i, col: pick(col, [ssum(n, lambda p: ker(j, Q)(i, p) * C(i, p, const(j))) for j in range(m)])),
         "MultivariateMuyGPS.fast_posterior_mean")
    c.noraise("total", s)


@rule("C14", "scale", [(be, m) for be in BACKENDS for m in (1, 2, 3)],
      "training the scale gives model i the analytic scale of column i under its own kernel and noise")
def scale(c, backend, m):
    s = S(backend)
    b, n = dim("b"), dim("n")
    pw, P = s.inp("pw", b, n, n, sym=(1, 2))
    y, Y = s.inp("y", b, n, const(m))
    text, env, kinds = models(s, m, m > 1, "AnalyticScale")
    e = s.run(SETUP + f"model = {text}\nret = model.optimize_scale(pw, y)\nsame = ret is model\nvals = [x.scale() for x in model.models]\n", pw=pw, y=y, **env)
    for j in range(m):
        K = KERNELS[kinds[j]][1](P, nf.sym(f"ell{j}"))
        want = over_ranks(backend, quad_sum(K, lambda i, p: Y(i, p, const(j)), b, n, lambda i, p: nf.sym(f"eps{j}"))) * nf.power(n * over_ranks(backend, b), -1)
        eqnum(c, f"value{j}", s, s.get_list(e.vals, j), want, "MultivariateMuyGPS.optimize_scale")
    c.check("returns-model", e.same is True, "another object is returned", "MultivariateMuyGPS.optimize_scale")


@rule("C14", "response-count", [(be, m, r) for be in BACKENDS for m, r in ((2, 1), (2, 3), (3, 2), (1, 2))],
      "targets with another number of responses than there are models are rejected when the scale is trained")
def response_count(c, backend, m, r):
    s = S(backend)
    b, n = dim("b"), dim("n")
    text, env, _ = models(s, m, False, "AnalyticScale")
    pw, y = s.inp("pw", b, n, n, sym=(1, 2))[0], s.inp("y", b, n, const(r))[0]
    c.raises("scale", s, lambda: s.run(SETUP + f"model = {text}\nmodel.optimize_scale(pw, y)\n", pw=pw, y=y, **env), ("ValueError",), "MultivariateMuyGPS.optimize_scale")
