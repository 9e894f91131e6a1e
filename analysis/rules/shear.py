"""C23: the lensing shear kernels are the covariances of second derivatives of the RBF potential."""
from .common import *

SHSETUP = SETUP + """
from MuyGPyS.gp.kernels.experimental import ShearKernel, ShearKernel2in3out
from MuyGPyS.gp.noise import ShearNoise33
from MuyGPyS.gp.deformation import DifferenceIsotropy
def model(kernel, noise):
    return MuyGPS(kernel=kernel(deformation=DifferenceIsotropy(F2, length_scale=Parameter(l))), noise=noise)
"""
TWO = const(2)
Q = nf.Fraction(1, 4)


def blocks(x, y, l):
    """3x3 blocks (convergence, shear 1, shear 2) from the derivatives of exp(-(x^2 + y^2) / (2 l))"""
    pw = nf.power
    k = nf.mkexp(((pw(x, 2) + pw(y, 2)) * pw(l, -1)).scale(-HALF))
    il = pw(l, -1)

    def d(n, z):
        """(d/dz)^n exp(-z^2 / 2l) divided by the exponential"""
        return {0: ONE, 1: -z * il, 2: z * z * il * il - il, 3: -pw(z, 3) * pw(il, 3) + (z * pw(il, 2)).scale(3),
                4: pw(z, 4) * pw(il, 4) - (pw(z, 2) * pw(il, 3)).scale(6) + pw(il, 2).scale(3)}[n]
    D = lambda i, j: d(i, x) * d(j, y) * k
    # operators: kappa = (xx + yy) / 2, gamma1 = (xx - yy) / 2, gamma2 = xy
    ops = ({(2, 0): HALF, (0, 2): HALF}, {(2, 0): HALF, (0, 2): -HALF}, {(1, 1): nf.Fraction(1)})
    out = []
    for p in ops:
        row = []
        for q in ops:
            row.append(sum((D(i + a, j + b).scale(u * v) for (i, j), u in p.items() for (a, b), v in q.items()), ZERO))
        out.append(row)
    return out


def pick3(B, a, c, ra, rc):
    return sum((nf.mkeq(a, const(i)) * nf.mkeq(c, const(j)) * B[x][y] for i, x in enumerate(ra) for j, y in enumerate(rc)), ZERO)


SHC = ("generic", "batch1", "one-neighbour", "batch=neighbours", "all-one")


def shsizes(case):
    b, n = dim("b"), dim("n")
    return {"generic": (b, n), "batch1": (ONE, n), "one-neighbour": (b, ONE), "batch=neighbours": (n, n), "all-one": (ONE, ONE)}[case]


FULL, TWOIN = (0, 1, 2), (1, 2)
NONSQ = ("generic", "batch1", "one-neighbour")


@rule("C23", "blocks", [(be, k, tr, cs) for be in LOCAL for k in ("33", "23") for tr in (False, True, "assigned", "replaced") for cs in NONSQ if k == "33" or be == "numpy"],
      "every block of the shear covariances is the corresponding fourth derivative of the potential's covariance, for own and trial length scales", equal=False)
def kblocks(c, backend, kind, trial, case):
    s = S(backend)
    b, n = shsizes(case)
    pw, P = s.inp("pw", b, n, n, TWO)
    cr, C = s.inp("cr", b, n, TWO)
    l = s.num("l", positive=True)
    t = s.num("t", positive=True)
    cls = {"33": "ShearKernel", "23": "ShearKernel2in3out"}[kind]
    e = s.run(SHSETUP + f"""
k = {cls}(deformation=DifferenceIsotropy(F2, length_scale=Parameter(2 * l if TRIAL in ("assigned", "replaced") else l)))
if TRIAL == "assigned":
    first = k(pw), k(cr), k.Kout()
    k.deformation.length_scale._set_val(l)
if TRIAL == "replaced":
    k.set_params(length_scale=Parameter(l))
f = k.get_opt_fn() if TRIAL is True else k
kw = dict(length_scale=t) if TRIAL is True else dict()
Kin, Kcross, Kout = f(pw, **kw), f(cr, **kw), k.Kout()
""", pw=pw, cr=cr, l=l, t=t, TRIAL=trial)
    L = nf.sym("t") if trial is True else nf.sym("l")
    rin = FULL if kind == "33" else TWOIN
    ni = const(len(rin))
    c.eq("Kin", s, e.Kin, Spec([b, ni, n, ni, n], lambda i, a, p, d, q: pick3(blocks(P(i, p, q, ZERO), P(i, p, q, ONE), L), a, d, rin, rin)), cls)
    c.eq("Kcross", s, e.Kcross, Spec([b, ni, n, const(3)], lambda i, a, p, d: pick3(blocks(C(i, p, ZERO), C(i, p, ONE), L), a, d, rin, FULL)), cls)
    c.eq("Kout", s, e.Kout, Spec([const(3), const(3)], lambda a, d: pick3(blocks(ZERO, ZERO, nf.sym("l")), a, d, FULL, FULL)), cls)


@rule("C23", "noise", [(be, cs) for be in LOCAL for cs in SHC], "the shear noise adds twice the noise variance to convergence and once to both shears, on the diagonal only")
def noise(c, backend, case):
    s = S(backend)
    b, n = shsizes(case)
    K, Kf = s.inp("K", b, const(3), n, const(3), n)
    e = s.run(SHSETUP + "o = ShearNoise33(eps).perturb(K)\n", K=K, eps=s.num("eps", positive=True))
    eps = nf.sym("eps")
    c.eq("perturb", s, e.o, Spec([b, const(3), n, const(3), n], lambda i, a, p, d, q: Kf(i, a, p, d, q) + nf.mkeq(a, d) * nf.mkeq(p, q) * eps * (ONE + nf.mkeq(a, ZERO))),
         "_shear_perturb33")


@rule("C23", "metric", [(be, k) for be in LOCAL for k in ("ShearKernel", "ShearKernel2in3out") if k == "ShearKernel" or be == "numpy"], "shear kernels refuse deformations that are not difference-valued")
def metric(c, backend, k):
    s = S(backend)
    for nm, d in (("isotropy", "Isotropy(F2, length_scale=Parameter(1.0))"), ("anisotropy", "Anisotropy(F2, length_scale=VectorParameter(Parameter(1.0), Parameter(2.0)))")):
        c.raises(nm, s, lambda: s.run(SHSETUP + f"k = {k}(deformation={d})\n", l=1), ("ValueError",), k)


def inverse2(sizes, fn):
    """inverse of a matrix whose rows and columns are indexed by a pair"""
    if lift(sizes[1]) is ONE:
        v = inverse(sizes[0], lambda a, d: fn(a, ZERO, d, ZERO))
        return lambda a, p, d, q: v(a, d)
    t = [nf.tmp(lift(z)) for z in sizes]
    u = [nf.tmp(lift(z)) for z in sizes]
    lam = nf.mklam((*t, *u), lift(fn(*map(nf.atom, t), *map(nf.atom, u))))
    return lambda a, p, d, q: nf.mkop("inv", (), (lam,), (lift(a), lift(p), lift(d), lift(q)))


@rule("C23", "prediction", [(be, r, cs) for be in LOCAL for r in ("3", "2in") for cs in SHC],
      "posterior mean and variance of a block kernel use every block: k^T (K + noise)^-1 y and Kout - k^T (K + noise)^-1 k over all components and neighbours")
def prediction(c, backend, r, case):
    s = S(backend)
    b, n = shsizes(case)
    ni = const(3) if r == "3" else const(2)
    no = const(3)
    K, Kf = s.inp("K", b, ni, n, ni, n, sym=((1, 2), (3, 4)))
    k, kf = s.inp("k", b, ni, n, no)
    y, Y = s.inp("y", b, ni, n)
    e = s.run(SHSETUP + """
m = model(ShearKernel, NullNoise())
mean = m.posterior_mean(K, k, y)
var = m.posterior_variance(K, k)
""", K=K, k=k, y=y, l=s.num("l", positive=True))

    def V(i):
        return inverse2((ni, n), lambda a, p, d, q: Kf(i, a, p, d, q))

    def mean(i, o):
        v = V(i)
        return ssum(ni, lambda a: ssum(n, lambda p: ssum(ni, lambda d: ssum(n, lambda q: kf(i, a, p, o) * v(a, p, d, q) * Y(i, d, q)))))
    c.eq("mean", s, e.mean, Spec([b, no], mean), "MuyGPS.posterior_mean")

    def quad(i, o, w):
        v = V(i)
        return ssum(ni, lambda a: ssum(n, lambda p: ssum(ni, lambda d: ssum(n, lambda q: kf(i, a, p, o) * v(a, p, d, q) * kf(i, d, q, w)))))
    B = blocks(ZERO, ZERO, nf.sym("l"))
    c.eq("variance", s, e.var, Spec([b, no, no], lambda i, o, w: pick3(B, o, w, FULL, FULL) - quad(i, o, w)), "MuyGPS.posterior_variance")


@rule("C23", "workflow", [(be, k, cs) for be in LOCAL for k in ("33", "23") for cs in NONSQ if k == "33" or be == "numpy"],
      "from training features to covariances of the batch: every entry belongs to its own batch point, neighbours and components", equal=False)
def workflow(c, backend, kind, case):
    s = S(backend)
    b, n = shsizes(case)
    train, X = s.inp("train", dim("N"), TWO)
    test, T = s.inp("test", dim("M"), TWO)
    ind, I = s.inp("ind", b, dt="int")
    nn, NN = s.inp("nn", b, n, dt="int")
    cls = {"33": "ShearKernel", "23": "ShearKernel2in3out"}[kind]
    e = s.run(SHSETUP + f"""
m = model({cls}, NullNoise())
cd = m.kernel.deformation.crosswise_tensor(test, train, ind, nn)
pd = m.kernel.deformation.pairwise_tensor(train, nn)
Kin, Kcross = m.kernel(pd), m.kernel(cd)
""", train=train, test=test, ind=ind, nn=nn, l=s.num("l", positive=True))
    L = nf.sym("l")
    rin = FULL if kind == "33" else TWOIN
    ni = const(len(rin))
    dx = lambda i, p, q, z: X(NN(i, p), const(z)) - X(NN(i, q), const(z))
    dc = lambda i, p, z: T(I(i), const(z)) - X(NN(i, p), const(z))
    c.eq("Kin", s, e.Kin, Spec([b, ni, n, ni, n], lambda i, a, p, d, q: pick3(blocks(dx(i, p, q, 0), dx(i, p, q, 1), L), a, d, rin, rin)), cls)
    c.eq("Kcross", s, e.Kcross, Spec([b, ni, n, const(3)], lambda i, a, p, d: pick3(blocks(dc(i, p, 0), dc(i, p, 1), L), a, d, rin, FULL)), cls)


@rule("C23", "noisy-prediction", [(be, cs) for be in LOCAL for cs in ("generic", "batch1", "all-one")], "prediction with shear noise is prediction on the perturbed covariance, own and trial noise")
def noisy(c, backend, case):
    s = S(backend)
    b, n = shsizes(case)
    K = s.inp("K", b, const(3), n, const(3), n, sym=((1, 2), (3, 4)))[0]
    k = s.inp("k", b, const(3), n, const(3))[0]
    y = s.inp("y", b, const(3), n)[0]
    e = s.run(SHSETUP + """
m, z = model(ShearKernel, ShearNoise33(eps)), model(ShearKernel, NullNoise())
mean, var = m.posterior_mean(K, k, y), m.posterior_variance(K, k)
P = ShearNoise33(eps).perturb(K)
wmean, wvar = z.posterior_mean(P, k, y), z.posterior_variance(P, k)
tmean, tvar = m.get_opt_mean_fn()(K, k, y, noise=t), m.get_opt_var_fn()(K, k, noise=t)
Q = ShearNoise33(t).perturb(K)
wtmean, wtvar = z.posterior_mean(Q, k, y), z.posterior_variance(Q, k)
""", K=K, k=k, y=y, **{v: s.num(v, positive=True) for v in ("l", "eps", "t")})
    for lab, g, w in (("mean", e.mean, e.wmean), ("variance", e.var, e.wvar), ("trial-mean", e.tmean, e.wtmean), ("trial-variance", e.tvar, e.wtvar)):
        c.eq(lab, s, g, s.array(w), "ShearNoise33")


@rule("C23", "square", [(be, k, cs) for be in LOCAL for k in ("33", "23") for cs in ("batch=neighbours", "all-one") if k == "33" or be == "numpy"],
      "a batch with as many points as neighbours has the covariances any other batch has")
def square(c, backend, kind, case):
    s = S(backend)
    b, n = shsizes(case)
    cr, C = s.inp("cr", b, n, TWO)
    pw, P = s.inp("pw", b, n, n, TWO)
    cls = {"33": "ShearKernel", "23": "ShearKernel2in3out"}[kind]
    e = s.run(SHSETUP + f"""
k = {cls}(deformation=DifferenceIsotropy(F2, length_scale=Parameter(l)))
Kin, Kcross = k(pw), k(cr)
""", cr=cr, pw=pw, l=s.num("l", positive=True))
    L = nf.sym("l")
    rin = FULL if kind == "33" else TWOIN
    ni = const(len(rin))
    c.eq("Kin", s, e.Kin, Spec([b, ni, n, ni, n], lambda i, a, p, d, q: pick3(blocks(P(i, p, q, ZERO), P(i, p, q, ONE), L), a, d, rin, rin)), cls)
    c.eq("Kcross", s, e.Kcross, Spec([b, ni, n, const(3)], lambda i, a, p, d: pick3(blocks(C(i, p, ZERO), C(i, p, ONE), L), a, d, rin, FULL)), cls)
