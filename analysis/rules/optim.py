"""C10: what an optimiser run leaves behind."""
from .common import *
from .loss import LSETUP
from ..values import mknum

OPSETUP = LSETUP + """
from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
from MuyGPyS.gp.deformation import DifferenceIsotropy
import numpy as np
def state(model):
    Kin, Kcross = model.kernel(pw), model.kernel(cr)
    return (Kin, Kcross, model.posterior_mean(Ks, ks, y), model.posterior_variance(Ks, ks), model.noise.perturb(Ks), model.scale())
"""
F = nf.Fraction
PRE = "ls"
# free hyperparameter name -> (start, lower, upper)
L = dict(length_scale=(F(1, 2), F(1, 8), F(8)), length_scale0=(F(1, 2), F(1, 8), F(8)), length_scale1=(F(2), F(1, 4), F(16)),
         length_scale2=(F(3), F(1, 2), F(32)), smoothness=(F(3, 4), F(1, 4), F(7, 2)), noise=(F(1, 64), F(1, 1024), F(1)))
L.update({f"length_scale{j}": (F(j), F(j, 8), F(4 * j)) for j in range(3, 12)})


def par(name, val):
    """text of a bounded parameter"""
    _, lo, up = L[name]
    return f"Parameter({float(val[name])}, ({float(lo)}, {float(up)}))"


MODELS = {
    "rbf": (("length_scale", "noise"), "flat",
            lambda v: f"MuyGPS(RBF(deformation=Isotropy(F2, {par('length_scale', v)})), noise=HomoscedasticNoise({float(v['noise'])}, (0.0009765625, 1.0)))"),
    "rbf-difference": (("length_scale",), "two",
                       lambda v: f"MuyGPS(RBF(deformation=DifferenceIsotropy(F2, {par('length_scale', v)})), noise=HomoscedasticNoise(0.125), scale=AnalyticScale(val=2.0))"),
    "matern-smoothness": (("smoothness", "length_scale", "noise"), "flat",
                          lambda v: f"MuyGPS(Matern(smoothness={par('smoothness', v)}, deformation=Isotropy(l2, {par('length_scale', v)})), noise=HomoscedasticNoise({float(v['noise'])}, (0.0009765625, 1.0)))"),
    "matern-noise-only": (("noise",), "flat",
                          lambda v: f"MuyGPS(Matern(smoothness=Parameter(1.5), deformation=Isotropy(l2, Parameter(2.0))), noise=HomoscedasticNoise({float(v['noise'])}, (0.0009765625, 1.0)), scale=FixedScale(val=3.0))"),
    "anisotropic": (("length_scale0", "length_scale1", "noise"), "two",
                    lambda v: f"MuyGPS(RBF(deformation=Anisotropy(F2, VectorParameter({par('length_scale0', v)}, {par('length_scale1', v)}))), noise=HomoscedasticNoise({float(v['noise'])}, (0.0009765625, 1.0)))"),
    "partly-fixed": (("length_scale0", "length_scale2"), "three",
                     lambda v: f"MuyGPS(Matern(smoothness=Parameter(0.5), deformation=Anisotropy(l2, VectorParameter({par('length_scale0', v)}, Parameter(0.25), {par('length_scale2', v)}))), noise=HomoscedasticNoise(0.125))"),
    "twelve": (tuple(f"length_scale{j}" for j in range(12)), "twelve",
               lambda v: f"MuyGPS(RBF(deformation=Anisotropy(F2, VectorParameter({', '.join(par(f'length_scale{j}', v) for j in range(12))}))), noise=HomoscedasticNoise(0.125))"),
    "heteroscedastic": (("length_scale",), "flat",
                        lambda v: f"MuyGPS(RBF(deformation=Isotropy(F2, {par('length_scale', v)})), noise=HeteroscedasticNoise(het))"),
    "no-noise": (("length_scale",), "flat",
                 lambda v: f"MuyGPS(RBF(deformation=Isotropy(F2, {par('length_scale', v)})), noise=NullNoise())"),
}
OPTS = ("L_BFGS_B_optimize", "Bayes_optimize")


def build(s, kind):
    b, n = dim("b"), dim("n")
    feat = {"flat": (), "two": (const(2),), "three": (const(3),), "twelve": (const(12),)}[kind]
    if not feat:
        nf.POSITIVE_SYMS.update({"pw", "cr"})
    return dict(pw=s.inp("pw", b, n, n, *feat)[0], cr=s.inp("cr", b, n, *feat)[0], y=s.inp("y", b, n)[0], t=s.inp("t", b)[0],
                Ks=s.inp("K", b, n, n, sym=(1, 2))[0], ks=s.inp("k", b, n)[0], het=s.inp("het", b, n)[0])


def final(names, case):
    """value returned by the optimiser, value the model must take"""
    got, want = {}, {}
    for k, x in enumerate(names):
        _, lo, up = L[x]
        inside = (lo * (7 - 2 * (k % 4)) + up * (1 + 2 * (k % 4))) / 8
        got[x] = {"inside": inside, "below": lo - F(1, 2 ** 20), "above": up + F(1, 2 ** 20),
                  "far-outside": (lo / 2, up * 2)[k % 2], "at-bounds": (lo, up)[k % 2]}[case]
        want[x] = min(max(got[x], lo), up)
    return got, want


STATE = ("Kin", "Kcross", "posterior-mean", "posterior-variance", "noise", "scale")


def done():
    nf.POSITIVE_SYMS.difference_update({"pw", "cr"})


@rule("C10", "result", [(be, o, m, cs) for be in ("numpy", "jax", "mpi") for o in OPTS for m in MODELS
                        for cs in ("inside", "below", "above", "far-outside", "at-bounds")
                        if (m != "twelve" or cs == "inside") and (be != "jax" or m != "matern-smoothness") and (be, m) != ("mpi", "heteroscedastic") and (cs in ("inside", "at-bounds") or m in ("rbf", "anisotropic") and be != "jax")],
      "the returned model is new, holds every optimised value under its own name (clamped to its bounds), keeps the rest and is rebuilt; the caller's model is unchanged")
def result(c, backend, opt, model, case):
    s = S(backend)
    names, kind, text = MODELS[model]
    env = build(s, kind)
    start = {x: L[x][0] for x in names}
    got, want = final(names, case)
    e0 = s.run(OPSETUP + f"model = {text(start)}\nnames, x0, bounds = model.get_opt_params()\n", **env)
    order = [str(x) for x in s.get_list(e0.names)]
    if sorted(order) != sorted(names):
        return c.bad("names", f"free hyperparameters are reported as {order}, declared {sorted(names)}", "MuyGPS.get_opt_params")
    s.I.opt_values = [got[x] for x in order] if opt.startswith("L_") else got
    e = s.run(OPSETUP + f"""
names0, x00, bounds0 = model.get_opt_params()
before = state(model)
result = {opt}(model, t, y, cr, pw, loss_fn=mse_fn)
names1, x01, bounds1 = model.get_opt_params()
after = state(model)
names2, x02, bounds2 = result.get_opt_params()
out = state(result)
want = state({text(want)})
""", model=e0.model, **env)
    for lab, g, w in zip(STATE, s.get_list(e.out), s.get_list(e.want)):
        c.eq("result/" + lab, s, g, s.array(w), "_new_muygps")
    for lab, g, w in zip(STATE, s.get_list(e.after), s.get_list(e.before)):
        c.eq("caller/" + lab, s, g, s.array(w), opt)
    c.check("new-model", e.result != e0.model, "the caller's model object itself is returned", "_new_muygps")
    c.check("names", [str(x) for x in s.get_list(e.names2)] == order, "the optimised model reports other free hyperparameters", "_new_muygps")
    k = const(len(order))
    tab = lambda vals: Spec([k], lambda i: sum((nf.mkeq(i, const(j)) * const(vals[x]) for j, x in enumerate(order)), ZERO))
    c.eq("values", s, e.x02, tab(want), "_new_muygps")
    c.eq("caller/values", s, e.x01, tab(start), opt)
    c.eq("bounds", s, e.bounds2, s.array(e.bounds0), "_new_muygps")
    done()


def pick(s, kind):
    return [x for x in s.I.events if x["kind"] == kind]


@rule("C10", "problem", [(be, o, m) for be in ("numpy", "jax", "mpi") for o in OPTS for m in ("rbf", "matern-smoothness", "anisotropic", "partly-fixed")
                         if be != "jax" or m != "matern-smoothness"],
      "the optimiser starts at the current values, is given every free parameter with its own bounds, and scores a point by the objective at these named values")
def problem(c, backend, opt, model):
    s = S(backend)
    names, kind, text = MODELS[model]
    env = build(s, kind)
    start = {x: L[x][0] for x in names}
    e = s.run(OPSETUP + f"model = {text(start)}\nnames, x0, bounds = model.get_opt_params()\nout = {opt}(model, t, y, cr, pw, loss_fn=mse_fn)\n", **env)
    order = [str(x) for x in s.get_list(e.names)]
    vals = pick(s, "objective")
    lb = opt.startswith("L_")
    trial = {x: (nf.mkel("trial", [const(j)]) if lb else nf.sym(f"trial[{x}]")) for j, x in enumerate(order)}
    e2 = s.run(OPSETUP + f"want = {'-' if lb else ''}{opt}.make_obj_fn(model, t, y, cr, pw, loss_fn=mse_fn)(**tr)\n", model=e.model,
               tr=s.I.new_dict({x: mknum(p, "float") for x, p in trial.items()}), **env)
    k = const(len(order))
    if lb:
        run = pick(s, "minimize")
        if not run or not vals:
            return c.undecided("run", "scipy.optimize.minimize is not reached")
        r = run[0]
        c.eq("start", s, r["x0"], Spec([k], lambda i: sum((nf.mkeq(i, const(j)) * const(start[x]) for j, x in enumerate(order)), ZERO)), "_scipy_optimize")
        if r["bounds"] is None:
            c.bad("bounds", "the optimiser is given no bounds", "_scipy_optimize")
        else:
            c.eq("bounds", s, r["bounds"], Spec([k, const(2)], lambda i, z: sum((nf.mkeq(i, const(j)) * (nf.mkeq(z, ZERO) * const(L[x][1]) + nf.mkeq(z, ONE) * const(L[x][2]))
                                                                                for j, x in enumerate(order)), ZERO)), "_scipy_optimize")
        c.check("method", r["method"] == "L-BFGS-B", f"method is {r['method']}", "_scipy_optimize")
    else:
        run, probe, mx = pick(s, "bayes_init"), pick(s, "probe"), pick(s, "maximize")
        if not run or not vals:
            return c.undecided("run", "BayesianOptimization is not reached")
        pb = run[0]["pbounds"]
        c.check("bounds-names", sorted(map(str, pb)) == sorted(order), f"bounds are given for {sorted(pb)}", "_bayes_opt_optimize")
        for x in order:
            for z in (0, 1):
                c.eq(f"bounds/{x}/{z}", s, pb[x][z], const(L[x][1 + z]), "_bayes_opt_optimize")
        if not probe:
            c.bad("start", "the current values are not probed", "_bayes_opt_optimize")
        else:
            p = probe[0]["params"]
            c.check("start-before-search", s.I.events.index(probe[0]) < s.I.events.index(mx[0]), "the current values are probed after the search", "_bayes_opt_optimize")
            if isinstance(p, dict):
                for x in order:
                    c.eq(f"start/{x}", s, p[x], const(start[x]), "_bayes_opt_optimize")
            else:
                c.undecided("start", "form of the probed point")
        kw = mx[0]["kwargs"]
        for q, v in (("init_points", 5), ("n_iter", 20)):
            if q in kw:
                c.eq("default/" + q, s, kw[q], const(v), "_bayes_opt_optimize")
            else:
                c.undecided("default/" + q, "left to the optimiser")
    c.eq("score", s, vals[-1]["value"], s.array(e2.want), "_obj_fn_adapter")
    done()


@rule("C10", "hierarchical", [(be, o, k, cs) for be in ("numpy", "jax") for o in OPTS for k in (2, 3) for cs in ("inside", "far-outside")
                             if be != "jax" or cs == "inside"],
      "every optimised knot of a hierarchical length scale holds the value found under its own name (clamped), the returned model predicts with it, and the caller's model keeps its own")
def hierarchical(c, backend, opt, count, case):
    s = S(backend)
    b, n, f = dim("b"), dim("n"), const(2)
    nf.POSITIVE_SYMS.update({"pw", "cr"})
    env = dict(pw=s.inp("pw", b, n, n)[0], cr=s.inp("cr", b, n)[0], y=s.inp("y", b, n)[0], t=s.inp("t", b)[0],
               Ks=s.inp("K", b, n, n, sym=(1, 2))[0], ks=s.inp("k", b, n)[0], X=s.inp("X", b, f)[0], knots=s.inp("knots", const(count), f)[0])
    names = [f"length_scale{j}" for j in range(count)]
    lim = {x: tuple(v * (i + 1) for v in (F(1, 2), F(1, 8), F(8))) for i, x in enumerate(names)}
    start = {x: lim[x][0] for x in names}
    got, want = {}, {}
    for i, x in enumerate(names):
        _, lo, up = lim[x]
        got[x] = (lo * (7 - 2 * i) + up * (1 + 2 * i)) / 8 if case == "inside" else (lo / 2, up * 2)[i % 2]
        want[x] = min(max(got[x], lo), up)

    def text(v):
        one = lambda a: "HierarchicalParameter(knots, VectorParameter(" + ", ".join(f"Parameter({float(v[x])}, ({float(lim[x][1])}, {float(lim[x][2])}))" for x in a) + "), RBF(deformation=Isotropy(F2, length_scale=Parameter(1.0))))"
        d = f"Isotropy(F2, length_scale={one(names)})"
        return f"MuyGPS(RBF(deformation={d}), noise=HomoscedasticNoise(0.25))"
    setup = OPSETUP + """
from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParameter
def state(model):
    Kin, Kcross = model.kernel(pw, batch_features=X), model.kernel(cr, batch_features=X)
    return (Kin, Kcross, model.posterior_mean(Ks, ks, y), model.posterior_variance(Ks, ks))
"""
    s.I.opt_values = [got[x] for x in names] if opt.startswith("L_") else got
    e = s.run(setup + f"""
model = {text(start)}
names0, x00, bounds0 = model.get_opt_params()
before = state(model)
result = {opt}(model, t, y, cr, pw, batch_features=X, loss_fn=mse_fn)
names1, x01, bounds1 = model.get_opt_params()
after = state(model)
names2, x02, bounds2 = result.get_opt_params()
out = state(result)
want = state({text(want)})
""", **env)
    if [str(x) for x in s.get_list(e.names0)] != list(names):
        return c.bad("names", f"free knots are reported as {s.get_list(e.names0)}", "MuyGPS.get_opt_params")
    for lab, g, w in zip(STATE, s.get_list(e.out), s.get_list(e.want)):
        c.eq("result/" + lab, s, g, s.array(w), "_new_muygps")
    for lab, g, w in zip(STATE, s.get_list(e.after), s.get_list(e.before)):
        c.eq("caller/" + lab, s, g, s.array(w), opt)
    c.check("names", [str(x) for x in s.get_list(e.names2)] == list(names), "the optimised model reports other free knots", "_new_muygps")
    tab = lambda vals: Spec([const(len(names))], lambda i: sum((nf.mkeq(i, const(j)) * const(vals[x]) for j, x in enumerate(names)), ZERO))
    c.eq("values", s, e.x02, tab(want), "_new_muygps")
    c.eq("caller/values", s, e.x01, tab(start), opt)
    c.eq("bounds", s, e.bounds2, s.array(e.bounds0), "_new_muygps")
    done()


@rule("C10", "options", [(be, o) for be in ("numpy", "jax", "mpi") for o in OPTS],
      "optimiser options given by the caller reach the optimiser")
def options(c, backend, opt):
    s = S(backend)
    env = build(s, "flat")
    names, _, text = MODELS["rbf"]
    lb = opt.startswith("L_")
    kw = "tol=7, options=dict(maxiter=11)" if lb else "random_state=3, init_points=2, n_iter=9, allow_duplicate_points=False"
    s.run(OPSETUP + f"out = {opt}({text({x: L[x][0] for x in names})}, t, y, cr, pw, loss_fn=mse_fn, {kw})\n", **env)
    if lb:
        r = pick(s, "minimize")[0]["kwargs"]
        c.eq("tol", s, r["tol"], const(7), "_scipy_optimize") if "tol" in r else c.bad("tol", "tol is dropped", "_scipy_optimize")
        o = r.get("options")
        o = s.I.deref(o) if hasattr(s.I, "deref") and o is not None else o
        c.check("options", o is not None, "options is dropped", "_scipy_optimize")
    else:
        i, m = pick(s, "bayes_init")[0]["kwargs"], pick(s, "maximize")[0]["kwargs"]
        for q, d, v in (("random_state", i, 3), ("init_points", m, 2), ("n_iter", m, 9)):
            c.eq(q, s, d[q], const(v), "_bayes_opt_optimize") if q in d else c.bad(q, q + " is dropped", "_bayes_opt_optimize")
        c.check("allow_duplicate_points", i.get("allow_duplicate_points") is False, "the caller's allow_duplicate_points is dropped", "_bayes_opt_optimize")
    done()


@rule("C10", "torch-unsupported", [(o,) for o in OPTS], "the torch backend refuses these optimisers")
def unsupported(c, opt):
    s = S("torch")
    env = build(s, "flat")
    names, _, text = MODELS["rbf"]
    c.raises("refused", s, lambda: s.run(OPSETUP + f"out = {opt}({text({x: L[x][0] for x in names})}, t, y, cr, pw, loss_fn=mse_fn)\n", **env),
             exc=("NotImplementedError",), where=opt)
    done()
