"""C03: fast (precomputed) prediction."""
from .common import *
from .mean import tensors
from .deform import data, DSETUP


def coeff_spec(K, Y, n, noise):
    """(K_i + noise)^-1 Y_i   at neighbour p (, column)"""
    def val(i, p, *col):
        V = pinv(K, n, noise)(i)
        return ssum(n, lambda q: V(p, q) * Y(i, q, *col))
    return val


def unit_axis(s, got, dims, fn, full):
    """Specification whose trailing response axis may be dropped when it has one entry"""
    g = s.array(got)
    if g is not None and len(g.dims) == len(full) and full != dims:
        return Spec(full, lambda *i: fn(*i[:len(dims)]))
    return Spec(dims, fn)


@rule("C03", "coefficients-and-mean", [(be, cs, t) for be in LOCAL for cs in CASES for t in ("columns", "flat")
                                       if not (t == "flat" and be == "jax")],
      "fast coefficients == (Kin + noise)^-1 y; fast mean == Kcross . coefficients == posterior mean on the same neighbourhoods")
def fast(c, backend, case, targets, nm="homoscedastic"):
    s = S(backend)
    b, n, r = sizes(case)
    Kin, K, Kcross, k, y, Y = tensors(s, b, n, r, targets)
    text, env, noise = noises(s, b, n)[nm]
    e = s.run(SETUP + f"""
model = MuyGPS(kernel=RBF(), noise={text})
co = model.fast_coefficients(Kin, y)
out = model.fast_posterior_mean(Kcross, co)
""", Kin=Kin, Kcross=Kcross, y=y, **env)
    single = targets == "flat" or r is ONE
    y1 = Y if targets == "flat" else (lambda *a: Y(*a, ZERO)) if single else Y
    cs = coeff_spec(K, y1, n, noise)
    ms = lambda i, *col: ssum(n, lambda p: k(i, p) * cs(i, p, *col))
    if single:
        c.eq("coefficients", s, e.co, unit_axis(s, e.co, [b, n], cs, [b, n, ONE]), "MuyGPS.fast_coefficients")
        c.eq("mean", s, e.out, unit_axis(s, e.out, [b], ms, [b, ONE]), "MuyGPS.fast_posterior_mean")
    else:
        c.eq("coefficients", s, e.co, Spec([b, n, r], cs), "MuyGPS.fast_coefficients")
        c.eq("mean", s, e.out, Spec([b, r], ms), "MuyGPS.fast_posterior_mean")
    c.noraise("total", s)


@rule("C03", "coefficients-noise", [(be, nm) for be in LOCAL for nm in ("heteroscedastic", "null")],
      "the same with per-neighbour noise and without noise")
def fast_noise(c, backend, nm):
    fast(c, backend, "generic", "columns", nm)


@rule("C03", "multivariate", [(be, cs) for be in LOCAL for cs in ("generic", "batch1", "one-neighbour", "batch=neighbours")],
      "multivariate fast prediction uses, in column i, the kernel, noise and coefficients of model i")
def multivariate(c, backend, case):
    s = S(backend)
    b, n, _ = sizes(case)
    pd, P = s.inp("pd", b, n, n, sym=(1, 2))
    cd, Q = s.inp("cd", b, n)
    y, Y = s.inp("y", b, n, const(2))
    pos = lambda k: s.num(k, positive=True)
    e = s.run(SETUP + """
m = MultivariateMuyGPS(
    dict(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(l0))), noise=HomoscedasticNoise(eps0)),
    dict(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(l1))), noise=HomoscedasticNoise(eps1)))
co = m.fast_coefficients(pd, y)
out = m.fast_posterior_mean(cd, co)
""", pd=pd, cd=cd, y=y, l0=pos("l0"), l1=pos("l1"), eps0=pos("eps0"), eps1=pos("eps1"))
    def part(m):
        ker = lambda T: (lambda *i: nf.mkexp((T(*i) * nf.power(nf.sym(f"l{m}"), -2)).scale(-HALF)))
        cs = coeff_spec(ker(P), lambda i, q: Y(i, q, const(m)), n, lambda i, p: nf.sym(f"eps{m}"))
        return cs, lambda i: ssum(n, lambda p: ker(Q)(i, p) * cs(i, p))
    cors, means = zip(*[part(m) for m in (0, 1)])
    pick = lambda col, vals: sum((nf.mkeq(col, const(m)) * v for m, v in enumerate(vals)), ZERO)
    c.eq("coefficients", s, e.co, Spec([b, n, const(2)], lambda i, p, col: pick(col, [f(i, p) for f in cors])), "MultivariateMuyGPS.fast_coefficients")
    c.eq("mean", s, e.out, Spec([b, const(2)], lambda i, col: pick(col, [f(i) for f in means])), "MultivariateMuyGPS.fast_posterior_mean")


def updated(NN):
    return lambda i, j: nf.mkphi(nf.mkeq(j, ZERO), i, NN(i, j - ONE))


@rule("C03", "neighbour-sets", [(be, cs) for be in LOCAL for cs in ("generic", "one-feature", "batch=neighbours")],
      "the fast neighbour sets are the point itself followed by its neighbours but the last; the fast tensors use exactly these rows")
def neighbour_sets(c, backend, case):
    s = S(backend)
    N, n, f, r = dim("N"), dim("n"), dim("f"), dim("r")
    if case == "one-feature":
        f = ONE
    if case == "batch=neighbours":
        N = n
    train, X = s.inp("train", N, f)
    y, Y = s.inp("y", N, r)
    nn, NN = s.inp("nn", N, n, dt="int")
    e = s.run(DSETUP + """
new = fast_nn_update(nn)
pd, tg = make_fast_predict_tensors(nn, train, y)
""", nn=nn, train=train, y=y)
    U = updated(NN)
    c.eq("fast_nn_update", s, e.new, Spec([N, n], U), "fast_nn_update")
    c.eq("pairwise", s, e.pd, Spec([N, n, n, f], lambda i, p, q, k: X(U(i, p), k) - X(U(i, q), k)), "make_fast_predict_tensors")
    c.eq("targets", s, e.tg, Spec([N, n, r], lambda i, p, k: Y(U(i, p), k)), "make_fast_predict_tensors")


@rule("C03", "pipeline", [(be, mv) for be in LOCAL for mv in (False, True)],
      "the fast regression workflow predicts each test point from the neighbour set of its nearest training point, with matching coefficients", equal=False)
def pipeline(c, backend, mv):
    s = S(backend)
    N, M, n, f = dim("N"), dim("M"), dim("n"), dim("f")
    r = const(2) if mv else dim("r")
    train, X = s.inp("train", N, f)
    test, T = s.inp("test", M, f)
    y, Y = s.inp("y", N, r)
    nn, NN = s.inp("nn", N, n, dt="int")
    tn, TN = s.inp("tn", M, n, dt="int")
    pos = lambda k: s.num(k, positive=True)
    e = s.run(SETUP + """
from MuyGPyS.examples.fast_posterior_mean import fast_posterior_mean_any
class Lookup:
    def get_batch_nns(self, indices):
        return nn, None
    def get_nns(self, points):
        return tn, None
def one(l, eps):
    return dict(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(l))), noise=HomoscedasticNoise(eps))
model = """ + ("MultivariateMuyGPS(one(l0, eps0), one(l1, eps1))" if mv else "MuyGPS(**one(l0, eps0))") + """
out, co, _ = fast_posterior_mean_any(model, test, train, Lookup(), y)
""", train=train, test=test, y=y, nn=nn, tn=tn, l0=pos("l0"), l1=pos("l1"), eps0=pos("eps0"), eps1=pos("eps1"))
    U = updated(NN)

    def val(m):
        def sq(a, b):
            return nf.mkexp((ssum(f, lambda k: nf.power(a(k) - b(k), 2)) * nf.power(nf.sym(f"l{m}"), -2)).scale(-HALF))
        Kt = lambda t, p, q: sq(lambda k: X(U(t, p), k), lambda k: X(U(t, q), k))
        cs = coeff_spec(Kt, lambda t, q, col: Y(U(t, q), col), n, lambda t, p: nf.sym(f"eps{m}"))
        def mean(i, col, V=U):
            t = TN(i, ZERO)
            return ssum(n, lambda p: sq(lambda k: T(i, k), lambda k: X(V(t, p), k)) * cs(t, p, col))
        return cs, mean
    parts = [val(0), val(1)] if mv else [val(0)]
    pick = lambda col, vals: vals[0]() if not mv else sum((nf.mkeq(col, const(m)) * v() for m, v in enumerate(vals)), ZERO)
    c.eq("coefficients", s, e.co, Spec([N, n, r], lambda t, p, col: pick(col, [lambda g=g: g[0](t, p, col) for g in parts])), "make_fast_regressor")
    want = lambda V: Spec([M, r], lambda i, col: pick(col, [lambda g=g: g[1](i, col, V) for g in parts]))
    c.eq_known("mean", s, e.out, want(U), want(updated(U)), "the neighbour order of the coefficients is shifted a second time "
               "before the cross-covariance is built", "fast_posterior_mean_any")
