"""C08: loss formulas; C09: assembly of the optimisation objective."""
from .common import *

LSETUP = SETUP + """
from MuyGPyS.optimize.loss import (mse_fn, cross_entropy_fn, lool_fn, lool_fn_unscaled, pseudo_huber_fn, looph_fn,
                                   LossFn, make_raw_predict_and_loss_fn, make_var_predict_and_loss_fn)
from MuyGPyS.optimize.objective import make_loo_crossval_fn, make_kernels_fn
"""
SHAPES = ("flat", "columns", "one-column", "one-row", "square")
BAT = BACKENDS


def shape(case):
    b, r = dim("b"), dim("r")
    return {"flat": ([b], False), "columns": ([b, r], True), "one-column": ([b, ONE], True), "one-row": ([ONE, r], True),
            "square": ([b, b], True)}[case][0]


def total(dims, fn):
    """sum over all elements"""
    if len(dims) == 1:
        return ssum(dims[0], lambda i: fn(i))
    return ssum(dims[0], lambda i: ssum(dims[1], lambda j: fn(i, j)))


def over_ranks(backend, p):
    """global sum: every rank holds its own part under MPI"""
    if backend != "mpi":
        return p
    return nf.mkop("allreduce", ("SUM",), (nf.mklam((), p),), ())


def inputs(s, dims):
    p, P = s.inp("pred", *dims)
    y, Y = s.inp("targ", *dims)
    return p, P, y, Y


def square(x):
    return nf.power(x, 2)


@rule("C08", "mse", [(be, sh) for be in BAT for sh in SHAPES],
      "mean squared error == (1/#elements) sum (prediction - target)^2 over all elements (of all ranks)")
def mse(c, backend, case):
    s = S(backend)
    dims = shape(case)
    p, P, y, Y = inputs(s, dims)
    e = s.run(LSETUP + "o = mse_fn(p, y)\n", p=p, y=y)
    size = dims[0] * (dims[1] if len(dims) > 1 else ONE)
    num = total(dims, lambda *i: square(P(*i) - Y(*i)))
    c.eq("value", s, e.o, over_ranks(backend, num) * nf.power(over_ranks(backend, size), -1), "_mse_fn")
    c.noraise("total", s)


def lool_spec(P, Y, v):
    return lambda *i: square(P(*i) - Y(*i)) * nf.power(v(*i), -1) + nf.mklog(v(*i))


@rule("C08", "lool", [(be, sh) for be in BAT for sh in SHAPES],
      "leave-one-out likelihood == sum (prediction - target)^2 / (scale var) + log(scale var); the unscaled one has scale 1")
def lool(c, backend, case):
    s = S(backend)
    dims = shape(case)
    p, P, y, Y = inputs(s, dims)
    nf.POSITIVE_SYMS.add("var")
    v, V = s.inp("var", *dims)
    e = s.run(LSETUP + "o = lool_fn(p, y, v, scl)\nu = lool_fn_unscaled(p, y, v)\n", p=p, y=y, v=v, scl=s.num("scl", positive=True))
    c.eq("lool", s, e.o, over_ranks(backend, total(dims, lool_spec(P, Y, lambda *i: V(*i) * nf.sym("scl")))), "_lool_fn")
    c.eq("unscaled", s, e.u, over_ranks(backend, total(dims, lool_spec(P, Y, V))), "_lool_fn_unscaled")
    c.noraise("total", s)
    nf.POSITIVE_SYMS.discard("var")


@rule("C08", "lool-multivariate", [(be, cs) for be in BAT for cs in ("generic", "one-row", "square")],
      "with full response covariances the quadratic form uses their inverse and the regulariser their log determinant")
def lool_mv(c, backend, case):
    s = S(backend)
    b, m = dim("b"), dim("m")
    if case == "one-row":
        b = ONE
    if case == "square":
        m = b
    p, P = s.inp("pred", b, m)
    y, Y = s.inp("targ", b, m)
    v, V = s.inp("cov", b, m, m, sym=(1, 2))
    e = s.run(LSETUP + "o = lool_fn(p, y, v, scl)\nu = lool_fn_unscaled(p, y, v)\n", p=p, y=y, v=v, scl=s.num("scl", positive=True))

    def spec(scl):
        def at(i):
            W = inverse(m, lambda q, t: V(i, q, t) * scl)
            d = lambda q: P(i, q) - Y(i, q)
            return ssum(m, lambda q: ssum(m, lambda t: d(q) * W(q, t) * d(t))) + logdet(m, lambda q, t: V(i, q, t) * scl)
        return over_ranks(backend, ssum(b, at))
    c.eq("lool", s, e.o, spec(nf.sym("scl")), "_lool_fn")
    c.eq("unscaled", s, e.u, spec(ONE), "_lool_fn_unscaled")


def huber(z, d):
    """d^2 (sqrt(1 + z/d^2) - 1) for a squared residual z"""
    return square(d) * (nf.power(ONE + z * nf.power(d, -2), HALF) - ONE)


@rule("C08", "pseudo-huber", [(be, sh, k) for be in BAT for sh in SHAPES for k in ("default", "given")],
      "pseudo-Huber == sum d^2 (sqrt(1 + ((target - prediction)/d)^2) - 1), with d = 1.5 unless given")
def pseudo_huber(c, backend, case, how):
    s = S(backend)
    dims = shape(case)
    p, P, y, Y = inputs(s, dims)
    given = how == "given"
    d = nf.sym("delta") if given else const(nf.Fraction(3, 2))
    e = s.run(LSETUP + f"o = pseudo_huber_fn(p, y{', boundary_scale=delta' if given else ''})\n", p=p, y=y, delta=s.num("delta", positive=True))
    c.eq("value", s, e.o, over_ranks(backend, total(dims, lambda *i: huber(square(P(*i) - Y(*i)), d))), "_pseudo_huber_fn")
    c.noraise("total", s)


@rule("C08", "looph", [(be, k) for be in BAT for k in ("default", "given")],
      "variance-regularised pseudo-Huber == sum 2 d^2 (sqrt(1 + (target - prediction)^2/(d^2 scale var)) - 1) + log(scale var), d = 3 unless given")
def looph(c, backend, how):
    s = S(backend)
    dims = shape("flat")
    p, P, y, Y = inputs(s, dims)
    nf.POSITIVE_SYMS.add("var")
    v, V = s.inp("var", *dims)
    given = how == "given"
    d = nf.sym("delta") if given else const(3)
    e = s.run(LSETUP + f"o = looph_fn(p, y, v, scl{', boundary_scale=delta' if given else ''})\n", p=p, y=y, v=v,
              scl=s.num("scl", positive=True), delta=s.num("delta", positive=True))
    sv = lambda *i: V(*i) * nf.sym("scl")
    c.eq("value", s, e.o, over_ranks(backend, total(dims, lambda *i: huber(square(P(*i) - Y(*i)) * nf.power(sv(*i), -1), d).scale(2) + nf.mklog(sv(*i)))), "_looph_fn")
    c.noraise("total", s)
    nf.POSITIVE_SYMS.discard("var")


@rule("C08", "cross-entropy", [(be, sh) for be in BAT for sh in ("columns", "two-classes", "three-classes", "one-row", "square")],
      "cross entropy == -sum over rows of log softmax(prediction) at the positive labels (probabilities inside the clipping range)")
def cross_entropy(c, backend, case):
    s = S(backend)
    s.I.interior = True
    b, r = dim("b"), dim("r")
    dims = {"two-classes": [b, const(2)], "three-classes": [b, const(3)]}.get(case) or shape(case)
    p, P, y, Y = inputs(s, dims)
    e = s.run(LSETUP + "o = cross_entropy_fn(p, y)\n", p=p, y=y)
    norm = lambda i: ssum(dims[1], lambda j: nf.mkexp(P(i, j)))
    one = lambda i, j: nf.mkgt(Y(i, j))
    c.eq("value", s, e.o, over_ranks(backend, total(dims, lambda i, j: -one(i, j) * (P(i, j) - nf.mklog(norm(i))))), "_cross_entropy_fn")


LOSS = {"mse": ("mse_fn", False, ("", {})), "cross-entropy": ("cross_entropy_fn", False, ("", {})),
        "pseudo-huber": ("pseudo_huber_fn", False, ("boundary_scale=delta", "delta")),
        "lool": ("lool_fn", True, ("", {})), "lool-unscaled": ("lool_fn_unscaled", True, ("", {})),
        "looph": ("looph_fn", True, ("boundary_scale=delta", "delta"))}

OSETUP = LSETUP + """
from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
def kernel_fn(d, ell=None, eps=None, batch_features=None):
    if batch_features is None:
        return d * ell
    return d * ell + batch_features
def mean_fn(Kin, Kcross, y, ell=None, eps=None):
    return y[:, 0] * eps + Kcross[:, :1] - Kin[:, :1, 0] * ell
def mean_flat(Kin, Kcross, y, ell=None, eps=None):
    return y[:, 0] * eps + Kcross[:, 0] - Kin[:, 0, 0] * ell
def scale_fn(Kin, y, ell=None, eps=None):
    return base * ell / eps
"""


@rule("C09", "composition", [(be, l, m, kw, bf) for be in BACKENDS for l in LOSS for m in ("plain", "masked") for kw in (False, True)
                             for bf in (False, True) if (not kw or l in ("pseudo-huber", "looph"))
                             and (not bf or l in ("mse", "lool")) and (l, m) != ("looph", "masked")],
      "objective(trial) == -loss(mean(Kin, Kcross), targets[, variances, scale], **loss_kwargs) with all trial values passed on and the target mask applied")
def composition(c, backend, loss, mask, kw, bf):
    s = S(backend)
    s.I.interior = True
    b, n, m = dim("b"), dim("n"), dim("m")
    fn, var, (opt, _) = LOSS[loss]
    pw, cr, y = s.inp("pw", b, n, n)[0], s.inp("cr", b, n)[0], s.inp("y", b, n, m)[0]
    masked = mask == "masked"
    w = dim("w") if masked else m
    t = s.inp("t", b, w)[0]
    flat = loss == "looph"
    nf.POSITIVE_SYMS.update({"V"})
    V = s.inp("V", b, m, m)[0] if masked else s.inp("V", b)[0] if flat else s.inp("V", b, m)[0]
    if flat:
        y, t = s.inp("y", b, n)[0], s.inp("t", b)[0]
    ms = s.inp("mask", w, dt="int")[0]
    pos = lambda k: s.num(k, positive=True)
    e = s.run(OSETUP + f"""
{'mean_fn = mean_flat' if flat else ''}
def var_fn(Kin, Kcross, ell=None, eps=None):
    return V * eps
kw = dict({opt if kw else ''})
obj = make_loo_crossval_fn({fn}, kernel_fn, mean_fn, var_fn, scale_fn, pw, cr, y, t,
    batch_features={'feat' if bf else 'None'}, target_mask={'ms' if masked else 'None'}, loss_kwargs=kw)
o = obj(ell=ell1, eps=e1)
o2 = obj(ell=ell2, eps=e2)
def want(ell, eps):
    Kin = kernel_fn(pw, ell=ell, batch_features={'feat' if bf else 'None'})
    Kcross = kernel_fn(cr, ell=ell, batch_features={'feat' if bf else 'None'})
    p = mean_fn(Kin, Kcross, y, ell=ell, eps=eps){'[:, ms]' if masked else ''}
    v = (V * eps){'[:, ms, ms]' if masked else ''}
    return -{fn}(p, t{', v' + (', base * ell / eps' if 'unscaled' not in fn else '') if var else ''}, **kw)
w = want(ell1, e1)
w2 = want(ell2, e2)
""", pw=pw, cr=cr, y=y, t=t, V=V, ms=ms, base=pos("base"), feat=s.num("feat"), delta=pos("delta"),
              ell1=pos("ell1"), ell2=pos("ell2"), e1=pos("e1"), e2=pos("e2"))
    c.eq("value", s, e.o, s.array(e.w), "make_loo_crossval_fn")
    c.eq("second-trial", s, e.o2, s.array(e.w2), "make_loo_crossval_fn")
    nf.POSITIVE_SYMS.discard("V")


@rule("C09", "optimizer-objective", [(be, opt, l, sc) for be in LOCAL for opt in ("L_BFGS_B_optimize", "Bayes_optimize") for l in ("default", "mse_fn", "lool_fn", "looph_fn", "lool_fn_unscaled")
                                     for sc in ("analytic", "trained", "fixed") if sc == "analytic" or l in ("lool_fn", "looph_fn", "lool_fn_unscaled")],
      "the optimisers score exactly -loss of the model's own kernel, mean, variance and scale functions on the given tensors (leave-one-out likelihood unless given)")
def optimizer_objective(c, backend, opt, loss, scale):
    s = S(backend)
    b, n = dim("b"), dim("n")
    nf.POSITIVE_SYMS.update({"pw", "cr"})
    pw, cr, y, t = s.inp("pw", b, n, n)[0], s.inp("cr", b, n)[0], s.inp("y", b, n)[0], s.inp("t", b)[0]
    pos = lambda k: s.num(k, positive=True)
    fn = "lool_fn" if loss == "default" else loss
    kw = ", loss_kwargs=dict(boundary_scale=delta)" if loss == "looph_fn" else ""
    e = s.run(OSETUP + f"""
model = MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(0.5, (0.01, 10.0)))), noise=HomoscedasticNoise(0.01, (0.001, 1.0)),
               scale={dict(analytic="AnalyticScale()", trained="AnalyticScale()", fixed="FixedScale(q)")[scale]})
{"model.scale._set(q)" if scale == "trained" else ""}
model._make()
obj = {opt}.make_obj_fn(model, t, y, cr, pw{'' if loss == 'default' else ', loss_fn=' + loss}{kw})
o = obj(length_scale=l1, noise=e1)
ref = MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(l1))), noise=HomoscedasticNoise(e1), scale=FixedScale())
Kin, Kcross = ref.kernel(pw), ref.kernel(cr)
sc = model.scale.get_opt_fn(model)(Kin, y, noise=e1)
w = -{fn}(ref.posterior_mean(Kin, Kcross, y), t{', ref.posterior_variance(Kin, Kcross)' + ('' if 'unscaled' in fn else ', sc') if fn != 'mse_fn' else ''}{', boundary_scale=delta' if kw else ''})
""", pw=pw, cr=cr, y=y, t=t, l1=pos("l1"), e1=pos("e1"), delta=pos("delta"), q=pos("q"))
    c.eq("value", s, e.o, s.array(e.w), "OptimizeFn.make_obj_fn")
    nf.POSITIVE_SYMS.difference_update({"pw", "cr"})
