"""C29: under torch every result stays connected to the features and trainable hyperparameters it depends on."""
from .common import *
from .pure import PSETUP, VALUES, TWO, b, n, N
from .. import arr as A
from ..libcore import toarr

GSETUP = PSETUP + """
from MuyGPyS.torch import MuyGPs_layer, MultivariateMuyGPs_layer
import MuyGPyS._src.math as mm

"""
FLAT = {"floor", "rint", "int", "round"}  # derivative zero wherever it exists


def reach(p):
    """names of the inputs through which the derivative of p is taken"""
    out, done, todo = set(), set(), [p]
    while todo:
        x = todo.pop()
        x = x.body if isinstance(x, nf.Lam) else x
        if x in done:
            continue
        done.add(x)
        for m in x.terms:
            for a, _ in m.factors:
                if a in done or a.isbool or a.kind in ("ix", "dim") or a.kind == "fn" and a.args[0] in FLAT:
                    continue
                done.add(a)
                if a.kind in ("el", "sym"):
                    out.add(a.args[0])
                    continue
                todo.extend(nf._children(a.args))
    return out


def live(s, name, *sizes, **kw):
    nf.POSITIVE_SYMS.update({name + "^", name + "°"})
    return s.inp(name + "^", *sizes, **kw)[0]


def connected(c, label, s, got, want, where):
    """the derivative of got reaches every input in want, and none of the followed inputs is cut off anywhere"""
    body = toarr(s.I, got, "torch").body
    if any(a.kind == "sym" and str(a.args[0]).startswith("?") for a in nf.atoms_of(body)):
        return c.undecided(label, "unknown operation in the result")
    have = reach(body)
    followed = {w.rstrip("^") for w in want}
    cut = sorted(x for x in have if x.endswith("°") and x[:-1] in followed or x in followed and x in s.I.grad)
    c.check(label, not cut, f"part of the result depends on {', '.join(x.rstrip('°') for x in cut)} only through a value taken out of the graph: its gradient is lost", where)
    for w in want:
        c.check(f"{label}/{w.rstrip('^')}", w in have, f"no gradient reaches {w.rstrip('^')}", where)


def smooth(c, label, s, where):
    """no square root or logarithm of a distance that vanishes because a point meets itself"""
    hit = []
    for op, arr, at in s.I.roots:
        if not any(x.endswith("^") for x in reach(arr.body)):
            continue
        full = [A.sizeof(ax) for ax in arr.dims]
        for i in range(len(full)):
            for j in range(i):
                if full[i] is not full[j] or len(arr.dims[i]) != 1 or len(arr.dims[j]) != 1:
                    continue
                idx = A.free_idx(arr.dims)
                idx[i] = idx[j]
                if A.at(arr, idx) is ZERO or A.at(arr, idx).const() == 0:
                    hit.append((op, at))
    c.check(label, not hit, f"{hit and hit[0][0]} is taken of a distance which is zero between a point and itself: the gradient is not finite ({hit and hit[0][1]})", where)


def begin(follow):
    s = S("torch")
    s.I.grad = set(follow)
    for x in follow:
        nf.POSITIVE_SYMS.update({x, x + "^", x + "°"})
    return s


def base(s, y):
    out = {k: s.inp(k, *VALUES[k][0], dt=VALUES[k][1])[0] for k in ("ind", "nn", y)}
    out["train"] = live(s, "train", *VALUES["train"][0])
    out.update({k: s.num(k, positive=True) for k in ("l", "eps", "sc")})
    return out


KERNELS = dict(rbf="RBF(deformation=iso(l))", difference="RBF(deformation=DifferenceIsotropy(F2, length_scale=Parameter(l)))",
               **{f"matern-{nu}": f"Matern(smoothness=Parameter({v}), deformation=iso(l, {m}))"
                  for nu, v, m in (("0.5", "0.5", "l2"), ("1.5", "1.5", "l2"), ("2.5", "2.5", "l2"), ("inf", "inf", "l2"), ("0.5-F2", "0.5", "F2"))})


@rule("C29", "layer", [(k, y) for k in KERNELS if k != "difference" for y in ("ylong", "labels")],
      "the gradients of the layer's mean and variance reach the features, the length scale and the noise, uncut and finite")
def layer(c, kernel, y):
    s = begin(("l", "eps"))
    e = s.run(GSETUP + f"""
inf = mm.inf
m = MuyGPS({KERNELS[kernel]}, noise=HomoscedasticNoise(eps), scale=FixedScale(sc))
layer = MuyGPs_layer(m, ind, nn, {y}[ind], {y}[nn])
mean, var = layer.forward(train)
held = layer.length_scale
""", **base(s, y))
    for lab, v in (("mean", e.mean), ("variance", e.var)):
        connected(c, lab, s, v, ("train^", "l^", "eps^"), "MuyGPs_layer.forward")
    smooth(c, "finite", s, "MuyGPs_layer.forward")
    c.check("parameter", getattr(s.I.get(e.held), "tag", None) == "param" if hasattr(e.held, "id") else False,
            "the layer does not hold its length scale as a trainable parameter", "MuyGPs_layer.__init__")


@rule("C29", "layer-step", [("rbf",), ("matern-1.5",)], "the parameter the layer exposes is the one forward uses: a step on it moves the predictions")
def step(c, kernel):
    s = S("torch")
    v = base(s, "ylong")
    s.num("l2_", positive=True)
    v["l2_"] = s.num("l2_", positive=True)
    e = s.run(GSETUP + f"""
m = MuyGPS({KERNELS[kernel]}, noise=HomoscedasticNoise(eps), scale=FixedScale(sc))
layer = MuyGPs_layer(m, ind, nn, ylong[ind], ylong[nn])
first = layer.forward(train)
layer.length_scale.fill_(l2_)
mean, var = layer.forward(train)
l = l2_
w = MuyGPS({KERNELS[kernel]}, noise=HomoscedasticNoise(eps), scale=FixedScale(sc))
cd, pd, _, _ = w.make_train_tensors(ind, nn, train, ylong)
want_mean, want_var = w.posterior_mean(w.kernel(pd), w.kernel(cd), ylong[nn]), w.posterior_variance(w.kernel(pd), w.kernel(cd))
""", **v)
    c.eq("mean", s, e.mean, s.array(e.want_mean), "MuyGPs_layer.forward")
    c.eq("variance", s, e.var, s.array(e.want_var), "MuyGPs_layer.forward")


@rule("C29", "multivariate-layer", [("homogeneous",), ("mixed",)], "the gradients of the multivariate layer reach the features and every model's hyperparameters")
def multivariate(c, kind):
    s = begin(("l", "eps", "h"))
    second = "RBF(deformation=iso(h))" if kind == "homogeneous" else "Matern(smoothness=Parameter(0.5), deformation=iso(h, l2))"
    e = s.run(GSETUP + f"""
m = MultivariateMuyGPS(dict(kernel=RBF(deformation=iso(l)), noise=HomoscedasticNoise(eps), scale=FixedScale(sc)), dict(kernel={second}, noise=HomoscedasticNoise(0.5)))
mean, var = MultivariateMuyGPs_layer(m, ind, nn, labels[ind], labels[nn]).forward(train)
""", h=s.num("h", positive=True), **base(s, "labels"))
    for lab, v in (("mean", e.mean), ("variance", e.var)):
        connected(c, lab, s, v, ("train^", "l^", "eps^", "h^"), "MultivariateMuyGPs_layer.forward")
    smooth(c, "finite", s, "MultivariateMuyGPs_layer.forward")


@rule("C29", "kernels", [(k,) for k in KERNELS], "a kernel's gradient reaches the features it is built from and its length scale, for training and test tensors")
def kernels(c, kernel):
    s = begin(("l", "eps"))
    v = base(s, "ylong")
    v["test"] = live(s, "test", dim("M"), TWO)
    e = s.run(GSETUP + f"""
inf = mm.inf
k = {KERNELS[kernel]}
Kin = k(k.deformation.pairwise_tensor(train, nn))
own = k(k.deformation.crosswise_tensor(train, train, ind, nn))
Kcross = k(k.deformation.crosswise_tensor(test, train, ind, nn))
""", **v)
    connected(c, "Kin", s, e.Kin, ("train^", "l^"), "KernelFn.__call__")
    connected(c, "Kcross", s, e.Kcross, ("train^", "test^", "l^"), "KernelFn.__call__")
    connected(c, "own", s, e.own, ("train^", "l^"), "KernelFn.__call__")
    smooth(c, "finite", s, "KernelFn.__call__")


POST = dict(mean=("posterior_mean(K, k, y)", ("K^", "k^", "y^", "eps^")), means=("posterior_mean(K, k, y2)", ("K^", "k^", "y2^", "eps^")),
            variance=("posterior_variance(K, k)", ("K^", "k^", "eps^")),
            coefficients=("fast_coefficients(K, y)", ("K^", "y^", "eps^")), fast=("fast_posterior_mean(k, co)", ("k^", "co^")))


@rule("C29", "posterior", [(k,) for k in POST], "posterior functions pass gradients to covariances, targets and noise")
def posterior(c, what):
    s = begin(("eps",))
    text, want = POST[what]
    env = {x: live(s, x, *VALUES[x][0], **({"sym": (1, 2)} if x == "K" else {})) for x in ("K", "k", "y", "y2", "co")}
    e = s.run(GSETUP + f"m = MuyGPS(RBF(deformation=iso()), noise=HomoscedasticNoise(eps), scale=FixedScale(2.0))\nout = m.{text}\n", eps=s.num("eps", positive=True), **env)
    connected(c, what, s, e.out, want, "MuyGPS." + text.split("(")[0])


LOSS = dict(mse=("mse_fn(mean, t)", ("mean^", "t^")), mse2=("mse_fn(mean2, t2)", ("mean2^", "t2^")), cross_entropy=("cross_entropy_fn(mean2, t2)", ("mean2^",)),
            lool=("lool_fn(mean, t, var, sc)", ("mean^", "var^", "t^")), lool2=("lool_fn(mean2, t2, var2, sc)", ("mean2^", "var2^", "t2^")),
            unscaled=("lool_fn_unscaled(mean, t, var)", ("mean^", "var^", "t^")), pseudo_huber=("pseudo_huber_fn(mean, t)", ("mean^", "t^")),
            looph=("looph_fn(mean, t, var, sc)", ("mean^", "var^", "t^")))


@rule("C29", "losses", [(k,) for k in LOSS], "losses pass gradients to predictions, variances and targets")
def losses(c, what):
    s = begin(())
    text, want = LOSS[what]
    env = {x: live(s, x, *VALUES[x][0]) for x in ("mean", "mean2", "var", "var2", "t", "t2")}
    e = s.run(GSETUP + f"out = {text}\n", sc=s.num("sc", positive=True), **env)
    connected(c, what, s, e.out, want, text.split("(")[0])


SHEAR = """
from MuyGPyS.gp.kernels.experimental import ShearKernel, ShearKernel2in3out
from MuyGPyS.gp.noise import ShearNoise33
m = MuyGPS(kernel={k}(deformation=DifferenceIsotropy(F2, length_scale=Parameter(l))), noise={z}(eps))
"""


@rule("C29", "shear-kernel", [("ShearKernel",)], "a shear kernel's gradient reaches the features and the length scale")
def shear_kernel(c, kernel):
    s = begin(("l",))
    v = base(s, "ylong")
    v["test"] = live(s, "test", dim("M"), TWO)
    e = s.run(GSETUP + SHEAR.format(k=kernel, z="ShearNoise33") + """
d = m.kernel.deformation
Kin = m.kernel(d.pairwise_tensor(train, nn))
Kcross = m.kernel(d.crosswise_tensor(test, train, ind, nn))
""", **v)
    connected(c, "Kin", s, e.Kin, ("train^", "l^"), kernel)
    connected(c, "Kcross", s, e.Kcross, ("train^", "test^", "l^"), kernel)
    smooth(c, "finite", s, kernel)


@rule("C29", "shear-posterior", [(z, o) for z in ("ShearNoise33", "HomoscedasticNoise") for o in ("mean", "variance")], "predictions of a shear model pass gradients to covariances, targets and noise")
def shear_posterior(c, noise, what):
    s = begin(("eps",))
    three = const(3)
    v = base(s, "ylong")
    v.update(K=live(s, "K", b, three, n, three, n), k=live(s, "k", b, three, n, three), yy=live(s, "yy", b, three, n))
    e = s.run(GSETUP + SHEAR.format(k="ShearKernel", z=noise) + f"out = m.posterior_{what}(K, k{', yy' if what == 'mean' else ''})\n", **v)
    connected(c, what, s, e.out, ("K^", "k^", "eps^") + (("yy^",) if what == "mean" else ()), "MuyGPS.posterior_" + what)
