"""C07: trial hyperparameters reach every part of the model."""
from .common import *
from .loss import LSETUP

TSETUP = LSETUP + """
from MuyGPyS.gp.deformation import DifferenceIsotropy
"""

# kernel text as a function of the parameter texts; trial names
KERNELS = {
    "rbf": ("RBF(deformation={d})", ()),
    "matern-0.5": ("Matern(smoothness=Parameter(0.5), deformation={d})", ()),
    "matern-inf": ("Matern(smoothness=Parameter('inf'), deformation={d})".replace("'inf'", "np.inf"), ()),
    "matern-free": ("Matern(smoothness=Parameter({nu}, (0.1, 5.0)), deformation={d})", ("smoothness",)),
}
DEFORM = {
    "isotropy": ("Isotropy({m}, length_scale=Parameter({l0}, (0.001, 1000.0)))", ("length_scale",)),
    "difference-isotropy": ("DifferenceIsotropy({m}, length_scale=Parameter({l0}, (0.001, 1000.0)))", ("length_scale",)),
    "anisotropy": ("Anisotropy({m}, length_scale=VectorParameter(Parameter({l0}, (0.001, 1000.0)), Parameter({l1}, (0.001, 1000.0))))",
                   ("length_scale0", "length_scale1")),
    "part-anisotropy": ("Anisotropy({m}, length_scale=VectorParameter(Parameter(l0), Parameter({l1}, (0.001, 1000.0))))", ("length_scale1",)),
}
STORED = dict(l0="0.5", l1="2.0", nu="0.9", noise="0.01")
TRIAL = dict(l0="0.25", l1="4.0", nu="1.7", noise="0.125")
KEY = dict(length_scale="l0", length_scale0="l0", length_scale1="l1", smoothness="nu", noise="noise")
SCALES = ("FixedScale(val=scl)", "AnalyticScale(val=scl)", "AnalyticScale(val=scl, iteration_count=2)")
LOSSES = ("mse_fn", "lool_fn", "looph_fn")


def model_text(kern, deform, scale, vals):
    kt, kn = KERNELS[kern]
    dt, dn = DEFORM[deform]
    metric = "F2" if kern == "rbf" or kern == "matern-inf" else "l2"
    return (f"MuyGPS(kernel={kt.format(d=dt.format(m=metric, **vals), **vals)}, "
            f"noise=HomoscedasticNoise({vals['noise']}, (0.0001, 1.0)), scale={scale})".replace("(l0)", f"({STORED['l0']})"),
            kn + dn + ("noise",))


CONF = [(be, k, d) for be in LOCAL for k in KERNELS for d in DEFORM if not (be == "torch" and k == "matern-free")]


def tensors(s, deform):
    b, n = dim("b"), dim("n")
    if deform == "isotropy":
        nf.POSITIVE_SYMS.update({"pw", "cr"})
        pw, _ = s.inp("pw", b, n, n)
        cr, _ = s.inp("cr", b, n)
    else:
        f = const(2)
        pw, _ = s.inp("pw", b, n, n, f)
        cr, _ = s.inp("cr", b, n, f)
    y, _ = s.inp("y", b, n)
    t, _ = s.inp("t", b)
    return dict(pw=pw, cr=cr, y=y, t=t, scl=s.num("scl", positive=True))


def done():
    nf.POSITIVE_SYMS.difference_update({"pw", "cr"})


@rule("C07", "trial-equals-rebuilt", CONF,
      "kernel tensors, mean, variance and scale functions evaluated at trial values equal those of a model built with these values")
def parts(c, backend, kern, deform):
    s = S(backend)
    env = tensors(s, deform)
    b, n = dim("b"), dim("n")
    Ks, ks = s.inp("K", b, n, n, sym=(1, 2))[0], s.inp("k", b, n)[0]
    for k, scale in enumerate(SCALES):
        if k == 2 and (kern, deform) != ("rbf", "isotropy"):
            continue
        A_, names = model_text(kern, deform, scale, STORED)
        B_, _ = model_text(kern, deform, scale, TRIAL)
        kw = ", ".join(f"{x}={TRIAL[KEY[x]]}" for x in names)
        text = TSETUP + """
import numpy as np
def parts(model, kw):
    kernel_fn = model.kernel.get_opt_fn()
    mean_fn, var_fn = model.get_opt_mean_fn(), model.get_opt_var_fn()
    scale_fn = model.scale.get_opt_fn(model)
    Kin, Kcross = make_kernels_fn(kernel_fn, pw, cr)(**kw)
    return (Kin, Kcross, mean_fn(Ks, ks, y, **kw), var_fn(Ks, ks, **kw), scale_fn(Ks, y, **kw))
""" + f"""
one = parts({A_}, dict({kw}))
two = parts({B_}, dict())
"""
        e = s.run(text, Ks=Ks, ks=ks, **env)
        one, two = s.get_list(e.one), s.get_list(e.two)
        for lab, g, w in zip(("Kin", "Kcross", "mean", "variance", "scale"), one, two):
            if k and lab != "scale":
                continue
            c.eq(f"{lab}{'/' + scale.split('(')[0] + str(k) if lab == 'scale' else ''}", s, g, s.array(w), "get_opt_fn")
    done()


@rule("C07", "zero-noise", [(be, sc) for be in LOCAL for sc in range(3)],
      "a trial noise of zero is a trial value like any other, and so is any value when the stored noise is zero")
def zero_noise(c, backend, k):
    s = S(backend)
    env = tensors(s, "isotropy")
    b, n = dim("b"), dim("n")
    Ks, ks = s.inp("K", b, n, n, sym=(1, 2))[0], s.inp("k", b, n)[0]
    e = s.run(TSETUP + f"""
def model(v):
    return MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(0.5))), noise=HomoscedasticNoise(v, (0.0, 1.0)), scale={SCALES[k]})
def parts(m, kw):
    return (m.get_opt_mean_fn()(Ks, ks, y, **kw), m.get_opt_var_fn()(Ks, ks, **kw), m.scale.get_opt_fn(m)(Ks, y, **kw), m.noise.perturb(Ks, **kw))
one, two = parts(model(0.25), dict(noise=0.0)), parts(model(0.0), dict())
three, four = parts(model(0.0), dict(noise=0.25)), parts(model(0.25), dict())
""", Ks=Ks, ks=ks, **env)
    for lab, g, w in (("zero-trial", e.one, e.two), ("zero-stored", e.three, e.four)):
        for q, x, z in zip(("mean", "variance", "scale", "perturbed"), s.get_list(g), s.get_list(w)):
            c.eq(f"{lab}/{q}", s, x, s.array(z), "get_opt_fn")
    done()


@rule("C07", "many-length-scales", [(be, t) for be in LOCAL for t in ("all", "some")], "trial values of more than ten length scales reach the features they are named for")
def many(c, backend, trial):
    s = S(backend)
    b, n = dim("b"), dim("n")
    N = 12
    pw, cr = s.inp("pw", b, n, n, const(N))[0], s.inp("cr", b, n, const(N))[0]
    stored, new = [0.5 + 0.25 * j for j in range(N)], [4.0 + 0.125 * j for j in range(N)]
    given = {"all": range(N), "some": (11, 2, 10)}[trial]
    vec = lambda vs: ", ".join(f"Parameter({v}, (0.001, 1000.0))" for v in vs)
    e = s.run(TSETUP + f"""
def model(*p):
    return MuyGPS(kernel=RBF(deformation=Anisotropy(F2, length_scale=VectorParameter(*p))))
a, z = model({vec(stored)}), model({vec([new[j] if j in given else stored[j] for j in range(N)])})
Kin, Kcross = make_kernels_fn(a.kernel.get_opt_fn(), pw, cr)({', '.join(f'length_scale{j}={new[j]}' for j in given)})
wKin, wKcross = z.kernel(pw), z.kernel(cr)
""", pw=pw, cr=cr)
    c.eq("Kin", s, e.Kin, s.array(e.wKin), "get_opt_fn")
    c.eq("Kcross", s, e.Kcross, s.array(e.wKcross), "get_opt_fn")


@rule("C07", "objective-at-trial", [(be, k, d, l) for be, k, d in CONF if d in ("isotropy", "anisotropy") and k in ("rbf", "matern-free", "matern-0.5")
                                    for l in LOSSES if k != "matern-free" or l == "mse_fn"],
      "the leave-one-out objective at trial values equals the objective of a model built with these values")
def objective(c, backend, kern, deform, loss):
    s = S(backend)
    env = tensors(s, deform)
    scale = SCALES[1]
    A_, names = model_text(kern, deform, scale, STORED)
    B_, _ = model_text(kern, deform, scale, TRIAL)
    kw = ", ".join(f"{x}={TRIAL[KEY[x]]}" for x in names)
    e = s.run(TSETUP + f"""
import numpy as np
def objective(model):
    return make_loo_crossval_fn({loss}, model.kernel.get_opt_fn(), model.get_opt_mean_fn(), model.get_opt_var_fn(),
                                model.scale.get_opt_fn(model), pw, cr, y, t)
one = objective({A_})({kw})
two = objective({B_})()
""", **env)
    c.eq("value", s, e.one, s.array(e.two), "make_loo_crossval_fn")
    done()


@rule("C07", "trial-leaves-model", [(be, k, d) for be, k, d in CONF if (k, d) in
                              (("rbf", "isotropy"), ("matern-0.5", "anisotropy"), ("matern-free", "isotropy"), ("rbf", "difference-isotropy"))],
      "evaluating trial values does not change the stored hyperparameters or later evaluations at the stored values")
def pure(c, backend, kern, deform):
    s = S(backend)
    env = tensors(s, deform)
    A_, names = model_text(kern, deform, SCALES[1], STORED)
    kw = ", ".join(f"{x}={TRIAL[KEY[x]]}" for x in names)
    loss = "mse_fn" if kern == "matern-free" else "lool_fn"
    e = s.run(TSETUP + f"""
import numpy as np
def values(model):
    Kin, Kcross = model.kernel(pw), model.kernel(cr)
    return (Kin, Kcross, model.posterior_mean(Kin, Kcross, y), model.posterior_variance(Kin, Kcross), model.scale(), model.noise())
model = {A_}
before = values(model)
fn = make_loo_crossval_fn({loss}, model.kernel.get_opt_fn(), model.get_opt_mean_fn(), model.get_opt_var_fn(),
                          model.scale.get_opt_fn(model), pw, cr, y, t)
first = fn({kw})
second = fn({kw})
after = values(model)
""", **env)
    for lab, g, w in zip(("Kin", "Kcross", "mean", "variance", "scale", "noise"), s.get_list(e.after), s.get_list(e.before)):
        c.eq(lab, s, g, s.array(w), "make_loo_crossval_fn")
    c.eq("repeatable", s, e.second, s.array(e.first), "make_loo_crossval_fn")
    done()
