"""C11: optimisation of the variance scale parameter."""
from .common import *
from .loss import over_ranks
from ..values import ArrC, mknum
from .. import arr as A

SSETUP = SETUP + "import numpy as np\n"
SC = ("generic", "batch1", "one-neighbour", "batch=neighbours", "all-one")


def number(s, v):
    """the only element of a one-element result"""
    g = s.array(v)
    if g is None:
        return None
    if any(x is not ONE for x in A.shape(g)):
        return None
    return A.at(g, [A.split_index(ZERO, d) for d in g.dims]) if g.dims else g.body


def reducer(s):
    """global sum over ranks (identity without mpi) as a function of the client program"""
    from ..libpy import native
    return native("red", lambda I, a, k: mknum(over_ranks(s.backend, number(s, a[0])), "float"))


def broadcast(s):
    """the root rank's value under mpi"""
    from ..libpy import mpi_known, native
    return native("common", lambda I, a, k: mpi_known(I, "bcast", a[0]) if s.backend == "mpi" else a[0])


def eqnum(c, label, s, got, want, where):
    p = number(s, got)
    if p is None:
        return c.bad(label, f"result is not a single number: {s.I.describe(got)}", where)
    c.eq(label, s, p, want, where)


def quad_sum(K, Y, b, n, noise):
    def at(i):
        V = pinv(K, n, noise)(i)
        return ssum(n, lambda p: ssum(n, lambda q: Y(i, p) * V(p, q) * Y(i, q)))
    return ssum(b, at)


def column(ref, Y):
    return ref, lambda i, p: Y(i, p, ZERO)


@rule("C11", "analytic", [(be, cs, nm, t) for be in BACKENDS for cs in SC for nm in ("homoscedastic", "heteroscedastic", "null") for t in ("flat", "column")
                          if (be, nm) != ("mpi", "heteroscedastic") and (cs == "generic" or nm == "homoscedastic")],
      "analytic scale == 1/(batch neighbours) sum_i y_i^T (Kin_i + noise)^-1 y_i over the whole (all ranks') batch, with the noise of the model or of the trial")
def analytic(c, backend, case, nm, targets):
    s = S(backend)
    b, n, _ = sizes(case)
    Kin, K = s.inp("Kin", b, n, n, sym=(1, 2))
    y, Y = s.inp("y", b, n) if targets == "flat" else column(*s.inp("y", b, n, ONE))
    text, env, noise = noises(s, b, n)[nm]
    e = s.run(SSETUP + f"""
model = MuyGPS(kernel=RBF(), noise={text}, scale=AnalyticScale(val=old))
fn = model.scale.get_opt_fn(model)
out = fn(Kin, y)
trial = fn(Kin, y, noise=eps2, length_scale=7.0)
after = model.scale()
""", Kin=Kin, y=y, old=s.num("old", positive=True), eps2=s.num("eps2", positive=True), **env)

    def want(noise):
        return over_ranks(backend, quad_sum(K, Y, b, n, noise)) * nf.power(n * over_ranks(backend, b), -1)
    eqnum(c, "value", s, e.out, want(noise), "AnalyticScale.get_opt_fn")
    eqnum(c, "trial-noise", s, e.trial, want((lambda i, p: nf.sym("eps2")) if nm == "homoscedastic" else noise), "AnalyticScale.get_opt_fn")
    eqnum(c, "stored", s, e.after, nf.sym("old"), "AnalyticScale.get_opt_fn")
    c.noraise("total", s, allow=("ValueError",))


@rule("C11", "analytic-iterated", [(be, k) for be in LOCAL for k in (2, 3)],
      "further iterations average the scale with the analytic scale of the rescaled covariance")
def iterated(c, backend, k):
    s = S(backend)
    b, n = ONE, dim("n")
    Kin, K = s.inp("Kin", b, n, n, sym=(1, 2))
    y, Y = s.inp("y", b, n)
    e = s.run(SSETUP + f"""
model = MuyGPS(kernel=RBF(), noise=HomoscedasticNoise(eps), scale=AnalyticScale(iteration_count={k}))
out = model.scale.get_opt_fn(model)(Kin, y)
""", Kin=Kin, y=y, eps=s.num("eps", positive=True))
    f = lambda m: ssum(n, lambda p: ssum(n, lambda q: Y(ZERO, p) * inverse(n, lambda u, v: (K(ZERO, u, v) + nf.sym("eps") * nf.mkeq(u, v)) * m)(p, q) * Y(ZERO, q))) * nf.power(n, -1)
    w = f(ONE)
    for _ in range(1, k):
        w = (w + f(w)).scale(HALF)
    eqnum(c, "value", s, e.out, w, "AnalyticScale.get_opt_fn")


@rule("C11", "optimize-scale", [(be, k) for be in BACKENDS for k in ("AnalyticScale", "FixedScale")],
      "optimize_scale stores the analytic value for the model's own kernel and noise (a fixed scale stays) and returns the model")
def optimize(c, backend, kind):
    s = S(backend)
    b, n = dim("b"), dim("n")
    pw, P = s.inp("pw", b, n, n, sym=(1, 2))
    y, Y = s.inp("y", b, n)
    pos = lambda k: s.num(k, positive=True)
    e = s.run(SSETUP + f"""
model = MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(ell))), noise=HomoscedasticNoise(eps), scale={kind}(val=old))
ret = model.optimize_scale(pw, y)
val = model.scale()
trained = model.scale.trained
again = model.optimize_scale(pw, y).scale()
other = model.optimize_scale(pw, 3 * y).scale()
""", pw=pw, y=y, ell=pos("ell"), eps=pos("eps"), old=pos("old"))
    K = lambda i, p, q: nf.mkexp((P(i, p, q) * nf.power(nf.sym("ell"), -2)).scale(-HALF))
    want = (over_ranks(backend, quad_sum(K, Y, b, n, lambda i, p: nf.sym("eps"))) * nf.power(n * over_ranks(backend, b), -1)
            if kind == "AnalyticScale" else nf.sym("old"))
    eqnum(c, "value", s, e.val, want, "MuyGPS.optimize_scale")
    eqnum(c, "repeatable", s, e.again, want, "MuyGPS.optimize_scale")
    eqnum(c, "retrained", s, e.other, want.scale(9) if kind == "AnalyticScale" else want, "MuyGPS.optimize_scale")
    c.check("returns-model", e.ret == s.I.resolve(e.ret) and e.ret is not None and s.I.resolve(e.ret) == e.model, "another object is returned", "MuyGPS.optimize_scale")
    c.check("trained", e.trained is True, f"trained is {e.trained}", "ScaleFn._set")


@rule("C11", "down-sample", [(be, k) for be in ("numpy", "torch", "mpi") for k in (1, 3)],
      "down-sampled scale == median over the draws of the analytic scale of one common subset (drawn without replacement) of the neighbours of covariances and targets")
def down(c, backend, k):
    s = S(backend)
    b, n, d = dim("b"), dim("n"), const(3)
    s.fact(nf.mkgt(n - d))
    Kin, K = s.inp("Kin", b, n, n, sym=(1, 2))
    y, Y = s.inp("y", b, n)
    e = s.run(SSETUP + f"""
model = MuyGPS(kernel=RBF(), noise=HomoscedasticNoise(eps), scale=DownSampleScale(down_count=3, iteration_count={k}))
fn = model.scale.get_opt_fn(model)
out = fn(Kin, y)
""", Kin=Kin, y=y, eps=s.num("eps", positive=True))
    draws = [x for x in s.I.events if x["kind"] == "random"]
    if any(x.get("what") != "choice" or x["tag"][0] != "choice" for x in draws):
        return c.undecided("draws", "form of random draws")
    c.check("draws", len(draws) == k, f"{len(draws)} subsets are drawn for {k} iterations", "DownSampleScale.get_opt_fn")
    c.check("without-replacement", all(not x["replace"] for x in draws), "subsets are drawn with replacement", "DownSampleScale.get_opt_fn")
    f = A.free_idx((A.axis(d),))[0]
    draw = lambda x: nf.mkop("choice", x["tag"], (), (n, d, f[0]))
    idx = [s.I.new_arr(ArrC((A.axis(d),), draw(x), "int", "np")) for x in draws]
    e2 = s.run(SSETUP + """
def one(i):
    Kd = (Kin + 0.0)[:, i][:, :, i] + eps * np.eye(3)
    yd = y[:, i]
    return np.sum(yd * np.linalg.solve(Kd, yd[:, :, None])[:, :, 0])
want = np.median([red(one(common(i))) for i in idx], axis=0) / (3 * red(b))
sort = np.median([red(one(common(np.sort(i)))) for i in idx], axis=0) / (3 * red(b))
""", red=reducer(s), common=broadcast(s), Kin=s.I.new_arr(s.array(Kin).with_(lib="np")), y=s.I.new_arr(s.array(y).with_(lib="np")), eps=s.num("eps"), b=s.size(b), idx=s.I.new_list(idx))
    m = len(c.obl)
    eqnum(c, "value", s, e.out, s.array(e2.sort).body, "DownSampleScale.get_opt_fn")
    if c.obl[m]["status"] == "violated":
        bad = c.obl.pop()
        eqnum(c, "value", s, e.out, s.array(e2.want).body, "DownSampleScale.get_opt_fn")
        if c.obl[m]["status"] == "violated":
            c.obl[m] = bad


@rule("C11", "down-sample-too-few", [(be, r) for be in NT for r in ("equal", "fewer")],
      "down-sampling as many or more neighbours than there are is refused")
def too_few(c, backend, rel):
    s = S(backend)
    b = dim("b")
    n = const(5 if rel == "equal" else 4)
    Kin, y = s.inp("Kin", b, n, n)[0], s.inp("y", b, n)[0]
    c.raises("refused", s, lambda: s.run(SSETUP + """
model = MuyGPS(kernel=RBF(), scale=DownSampleScale(down_count=5, iteration_count=2))
out = model.scale.get_opt_fn(model)(Kin, y)
""", Kin=Kin, y=y), exc=("ValueError",), where="DownSampleScale.get_opt_fn")


@rule("C11", "fixed", [(be,) for be in BACKENDS], "a fixed scale is returned as it is, in the objective too")
def fixed(c, backend):
    s = S(backend)
    b, n = dim("b"), dim("n")
    e = s.run(SSETUP + """
model = MuyGPS(kernel=RBF(), scale=FixedScale(val=v))
out = model.scale.get_opt_fn(model)(Kin, y, noise=eps)
""", Kin=s.inp("Kin", b, n, n)[0], y=s.inp("y", b, n)[0], v=s.num("v", positive=True), eps=s.num("eps", positive=True))
    eqnum(c, "value", s, e.out, nf.sym("v"), "FixedScale.get_opt_fn")


@rule("C11", "analytic-multivariate-covariance", [(be, cs) for be in LOCAL for cs in ("generic", "batch1", "one-neighbour")],
      "for covariances over (neighbour, response) pairs the analytic scale is 1/(batch neighbours responses) sum_i y_i^T (Kin_i + noise)^-1 y_i")
def multi(c, backend, case):
    s = S(backend)
    b, n, _ = sizes(case)
    m = dim("m")
    Kin, K = s.inp("Kin", b, n, m, n, m)
    y, Y = s.inp("y", b, n, m)
    e = s.run(SSETUP + """
model = MuyGPS(kernel=RBF(), noise=HomoscedasticNoise(eps), scale=AnalyticScale())
flat = model.noise.perturb(Kin).reshape(b, n * m, n * m)
yf = y.reshape(b, n * m)
out = model.scale.get_opt_fn(model)(Kin, y)
""", Kin=Kin, y=y, eps=s.num("eps", positive=True), b=s.size(b), n=s.size(n), m=s.size(m))
    N = lambda v: s.I.new_arr(s.array(v).with_(lib="np"))
    w = s.array(s.run("import numpy as np\nwant = np.einsum('ij,ij->i', yf, np.linalg.solve(flat, yf[:, :, None])[:, :, 0])\n", flat=N(e.flat), yf=N(e.yf)).want)
    eqnum(c, "value", s, e.out, ssum(b, lambda i: A.at(w, [A.split_index(i, w.dims[0])])) * nf.power(b * n * m, -1), "_analytic_scale_optim")
