"""C01: posterior mean; C02: posterior variance."""
from .common import *


def tensors(s, b, n, r, targets="columns"):
    Kin, K = s.inp("Kin", b, n, n, sym=(1, 2))
    Kcross, k = s.inp("Kcross", b, n)
    y, Y = s.inp("y", b, n) if targets == "flat" else s.inp("y", b, n, r, dim("q")) if targets == "table" else s.inp("y", b, n, r)
    return Kin, K, Kcross, k, y, Y


@rule("C01", "posterior-mean", [(b, c, t) for b in BACKENDS for c in CASES for t in ("flat", "columns", "table") if t != "table" or c == "generic" and b != "jax"],
      "MuyGPS.posterior_mean == Kcross^T (Kin + noise I)^-1 y for every batch element and response column")
def posterior_mean(c, backend, case, targets, nm="homoscedastic", opt=False):
    s = S(backend)
    b, n, r = sizes(case)
    Kin, K, Kcross, k, y, Y = tensors(s, b, n, r, targets)
    text, env, noise = noises(s, b, n)[nm]
    e = s.run(SETUP + f"""
model = MuyGPS(kernel=RBF(), noise={text})
out = model.posterior_mean(Kin, Kcross, y)
opt = model.get_opt_mean_fn()(Kin, Kcross, y)
""", Kin=Kin, Kcross=Kcross, y=y, **env)
    want = Spec(dict(flat=[b], columns=[b, r], table=[b, r, dim("q")])[targets], lambda i, *col: mean_spec(K, k, Y, n, noise, *col)(i))
    c.eq("value", s, e.out, want, "MuyGPS.posterior_mean")
    c.eq("optimisation-value", s, e.opt, want, "MuyGPS.get_opt_mean_fn")
    c.noraise("total", s)


@rule("C01", "posterior-mean-noise", [(b, "generic", t, nm) for b in BACKENDS for t in ("flat", "columns")
                                      for nm in ("heteroscedastic", "null") if (b, nm) != ("mpi", "heteroscedastic")],
      "the same with per-neighbour noise and without noise")
def posterior_mean_noise(c, backend, case, targets, nm):
    posterior_mean(c, backend, case, targets, nm)


@rule("C02", "posterior-variance", [(b, cs, nm) for b in BACKENDS for cs in CASES for nm in
                                    (("homoscedastic", "heteroscedastic", "null") if cs == "generic" else ("homoscedastic",))
                                    if (b, nm) != ("mpi", "heteroscedastic")],
      "MuyGPS.posterior_variance == scale * (1 - Kcross^T (Kin + noise)^-1 Kcross); the optimisation form is unscaled")
def posterior_variance(c, backend, case, nm):
    s = S(backend)
    b, n, r = sizes(case)
    Kin, K, Kcross, k, _, _ = tensors(s, b, n, r)
    text, env, noise = noises(s, b, n)[nm]
    sc = s.num("scl", positive=True)
    e = s.run(SETUP + f"""
model = MuyGPS(kernel=Matern(smoothness=Parameter(0.5)), noise={text}, scale=FixedScale(val=scl))
out = model.posterior_variance(Kin, Kcross)
opt = model.get_opt_var_fn()(Kin, Kcross)
""", Kin=Kin, Kcross=Kcross, scl=sc, **env)
    q = quad_spec(K, k, n, noise)
    c.eq("value", s, e.out, Spec([b], lambda i: nf.sym("scl") * (ONE - q(i))), "MuyGPS.posterior_variance")
    c.eq("optimisation-value", s, e.opt, Spec([b], lambda i: ONE - q(i)), "MuyGPS.get_opt_var_fn")
    c.noraise("total", s, allow=("ValueError",))


@rule("C02", "scale-is-current", [(b, k) for b in BACKENDS for k in ("FixedScale", "AnalyticScale", "DownSampleScale")],
      "after the scale of a model is (re)trained its posterior variance uses the new value exactly once")
def scale_current(c, backend, kind):
    s = S(backend)
    b, n, r = sizes("generic")
    Kin, K, Kcross, k, y, Y = tensors(s, b, n, r, "flat")
    diffs, D = s.inp("diffs", b, n, n)
    eps, sc = s.num("eps", positive=True), s.num("scl", positive=True)
    e = s.run(SETUP + f"""
model = MuyGPS(kernel=RBF(), noise=HomoscedasticNoise(eps), scale={kind}(val=scl))
before = model.posterior_variance(Kin, Kcross)
if {kind == 'DownSampleScale'}:
    model.scale._set(new)
    model._make()
else:
    model.optimize_scale(diffs, y)
after = model.posterior_variance(Kin, Kcross)
value = model.scale()
opt = model.get_opt_var_fn()(Kin, Kcross)
""", Kin=Kin, Kcross=Kcross, diffs=diffs, y=y, eps=eps, scl=sc, new=s.num("new", positive=True))
    q = quad_spec(K, k, n, lambda i, p: nf.sym("eps"))
    v = s.array(e.value)
    c.eq("before", s, e.before, Spec([b], lambda i: nf.sym("scl") * (ONE - q(i))), "MuyGPS.posterior_variance")
    c.eq("after", s, e.after, Spec([b], lambda i: v.body * (ONE - q(i))), "MuyGPS.posterior_variance")
    c.eq("optimisation-value", s, e.opt, Spec([b], lambda i: ONE - q(i)), "MuyGPS.get_opt_var_fn")


@rule("C02", "scale-is-current-multivariate", [(b, m) for b in BACKENDS for m in (1, 2, 3)],
      "every response's variance uses its own retrained scale exactly once")
def scale_current_multi(c, backend, mc):
    s = S(backend)
    b, n = dim("b"), dim("n")
    diffs, D = s.inp("diffs", b, n, n)
    cross, C = s.inp("cross", b, n)
    y, Y = s.inp("y", b, n, const(mc))
    eps = s.num("eps", positive=True)
    e = s.run(SETUP + f"""
from MuyGPyS.gp import MultivariateMuyGPS
from MuyGPyS.gp.deformation import Isotropy, F2
model = MultivariateMuyGPS(*[dict(kernel=RBF(deformation=Isotropy(F2, Parameter(1.0))), noise=HomoscedasticNoise(eps), scale=AnalyticScale()) for _ in range({mc})])
model.optimize_scale(diffs, y)
after = model.posterior_variance(diffs, cross)
values = [m.scale() for m in model.models]
""", diffs=diffs, cross=cross, y=y, eps=eps)
    K = lambda i, p, q: nf.mkexp(D(i, p, q) * (-HALF))
    k = lambda i, p: nf.mkexp(C(i, p) * (-HALF))
    q = quad_spec(K, k, n, lambda i, p: nf.sym("eps"))
    vals = [s.array(s.get_list(e.values, t)).body for t in range(mc)]

    def want(i, j):
        r = nf.ZERO
        for t in range(mc):
            r = r + nf.mkeq(nf.lift(j), const(t)) * vals[t] * (ONE - q(i))
        return r
    c.eq("after", s, e.after, Spec([b, const(mc)], want), "MultivariateMuyGPS.optimize_scale")
    c.noraise("total", s, allow=("ValueError",))
