"""C25: the torch layers are the model's leave-one-out predictions."""
from .common import *
from .pure import PSETUP, VALUES, TWO, b, n, N

TSETUP = PSETUP + """
from MuyGPyS.torch import MuyGPs_layer, MultivariateMuyGPs_layer
"""
SINGLE = dict(rbf="MuyGPS(RBF(deformation=iso(l)), noise=HomoscedasticNoise(eps), scale=FixedScale(sc))",
              matern="MuyGPS(Matern(smoothness=Parameter(1.5), deformation=iso(l, l2)), noise=HomoscedasticNoise(eps), scale=FixedScale(sc))",
              plain="MuyGPS(Matern(smoothness=Parameter(0.5), deformation=iso(l)))")


def env(s, y):
    out = {k: s.inp(k, *VALUES[k][0], dt=VALUES[k][1])[0] for k in ("train", "ind", "nn", y)}
    out.update({k: s.num(k, positive=True) for k in ("l", "eps", "sc")})
    return out


@rule("C25", "single", [(m, y) for m in SINGLE for y in ("ylong", "labels")],
      "forward returns posterior mean and variance of the model at the batch, from the neighbours' features and targets it was given")
def single(c, model, y):
    s = S("torch")
    e = s.run(TSETUP + f"""
nnt, bt = {y}[nn], {y}[ind]
layer = MuyGPs_layer({SINGLE[model]}, ind, nn, bt, nnt)
mean, var = layer.forward(train)
m = {SINGLE[model]}
cd, pd, _, _ = m.make_train_tensors(ind, nn, train, {y})
want_mean = m.posterior_mean(m.kernel(pd), m.kernel(cd), nnt)
want_var = m.posterior_variance(m.kernel(pd), m.kernel(cd))
""", **env(s, y))
    c.eq("mean", s, e.mean, s.array(e.want_mean), "MuyGPs_layer.forward")
    c.eq("variance", s, e.var, s.array(e.want_var), "MuyGPs_layer.forward")


@rule("C25", "current-parameters", [(m, w) for m in ("rbf", "matern") for w in ("length_scale", "noise", "value")], "forward uses the hyperparameters the model has when it is called, and other features when given others")
def current(c, model, what):
    s = S("torch")
    v = env(s, "ylong")
    change, after = dict(
        length_scale=("m.kernel.set_params(length_scale=Parameter(l2_))", "l = l2_"),
        noise=("m.noise = HomoscedasticNoise(l2_)", "eps = l2_"),
        value=("m.noise._set_val(l2_)", "eps = l2_"))[what]
    v["l2_"] = s.num("l2_", positive=True)
    v["moved"] = s.inp("moved", *VALUES["train"][0])[0]
    e = s.run(TSETUP + f"""
nnt, bt = ylong[nn], ylong[ind]
m = {SINGLE[model]}
layer = MuyGPs_layer(m, ind, nn, bt, nnt)
first = layer.forward(train)
{change}
mean, var = layer.forward(moved)
{after}
want_mean, want_var = MuyGPs_layer({SINGLE[model]}, ind, nn, bt, nnt).forward(moved)
""", **v)
    c.eq("mean", s, e.mean, s.array(e.want_mean), "MuyGPs_layer.forward")
    c.eq("variance", s, e.var, s.array(e.want_var), "MuyGPs_layer.forward")


@rule("C25", "multivariate", [("homogeneous",), ("mixed",)], "the multivariate layer returns the multivariate model's posterior mean and variance")
def multivariate(c, kind):
    s = S("torch")
    second = "dict(kernel=RBF(deformation=iso(2 * l)), noise=HomoscedasticNoise(2 * eps), scale=FixedScale(3 * sc))" if kind == "homogeneous" else \
        "dict(kernel=Matern(smoothness=Parameter(0.5), deformation=iso(2 * l, l2)), noise=NullNoise())"
    e = s.run(TSETUP + f"""
def build():
    return MultivariateMuyGPS(dict(kernel=RBF(deformation=iso(l)), noise=HomoscedasticNoise(eps), scale=FixedScale(sc)), {second})
nnt, bt = labels[nn], labels[ind]
mean, var = MultivariateMuyGPs_layer(build(), ind, nn, bt, nnt).forward(train)
m = build()
cd, pd, _, _ = m.make_train_tensors(ind, nn, train, labels)
want_mean, want_var = m.posterior_mean(pd, cd, nnt), m.posterior_variance(pd, cd)
""", **env(s, "labels"))
    c.eq("mean", s, e.mean, s.array(e.want_mean), "MultivariateMuyGPs_layer.forward")
    c.eq("variance", s, e.var, s.array(e.want_var), "MultivariateMuyGPs_layer.forward")


@rule("C25", "refused", [("anisotropic",)], "a layer over a deformation it does not support is refused when it is built")
def refused(c, what):
    s = S("torch")
    v = env(s, "ylong")
    c.raises(what, s, lambda: s.run(TSETUP + "layer = MuyGPs_layer(MuyGPS(RBF(deformation=ani())), ind, nn, ylong[ind], ylong[nn])\n", **v),
             ("NotImplementedError",), "MuyGPs_layer")
