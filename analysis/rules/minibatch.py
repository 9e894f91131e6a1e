"""C28: mini-batch optimisation over several epochs (experimental chassis)."""
from .common import *
from .optim import L, F, STATE, par, pick
from .loss import LSETUP
from .. import arr as A
from ..values import mknum, ArrC

MSETUP = LSETUP + """
from MuyGPyS.optimize import Bayes_optimize
from MuyGPyS.neighbors import NN_Wrapper
from MuyGPyS.optimize.experimental.chassis import optimize_from_tensors_mini_batch
"""
MODELS = {
    "isotropic": (("length_scale", "noise"), ONE, "mse_fn",
                  lambda v: f"MuyGPS(RBF(deformation=Isotropy(F2, {par('length_scale', v)})), noise=HomoscedasticNoise({float(v['noise'])}, (0.0009765625, 1.0)), scale=AnalyticScale())"),
    "noise-only": (("noise",), const(2), "pseudo_huber_fn",
                   lambda v: f"MuyGPS(Matern(smoothness=Parameter(0.5), deformation=Isotropy(l2, Parameter(2.0))), noise=HomoscedasticNoise({float(v['noise'])}, (0.0009765625, 1.0)), scale=FixedScale(val=3.0))"),
    "anisotropic": (("length_scale0", "length_scale1"), const(2), "mse_fn",
                    lambda v: f"MuyGPS(RBF(deformation=Anisotropy(F2, VectorParameter({par('length_scale0', v)}, {par('length_scale1', v)}))), noise=HomoscedasticNoise(0.125), scale=AnalyticScale())"),
    "partly-fixed": (("length_scale1", "noise"), const(2), "lool_fn",
                     lambda v: f"MuyGPS(RBF(deformation=Anisotropy(F2, VectorParameter(Parameter(0.25), {par('length_scale1', v)}))), noise=HomoscedasticNoise({float(v['noise'])}, (0.0009765625, 1.0)))"),
}
FIXED = {"partly-fixed": {"length_scale0": F(1, 4)}}


def optima(names, epochs):
    """best point of every run (inside the bounds), in order"""
    return [{x: (L[x][1] * (7 - 2 * ((k + q) % 4)) + L[x][2] * (1 + 2 * ((k + q) % 4))) / 8 for k, x in enumerate(names)} for q in range(epochs)]


def rows(s, size, fn):
    """integer vector given by an index function"""
    dims = (A.axis(size),)
    return s.I.new_arr(ArrC(dims, fn(A.flat(dims[0], A.free_idx(dims)[0])), "int", "np"))


CASES = [(m, ep, keep, probe, small) for m in MODELS for ep in (1, 2, 3) for keep in (False, True) for probe in (False, True)
         for small in (False, True) if (ep > 1 or not probe) and (ep < 3 or (m != "isotropic" and not keep and not small)) and not (keep and small)]


@rule("C28", "epochs", [(m, ep, keep, probe, small) for m, ep, keep, probe, small in CASES],
      "every epoch scores the model on its own batch with that batch's neighbours; probes, returned model, scale and counts follow the epochs", equal=False)
def epochs(c, model, ep, keep, probe, everything):
    s = S("numpy")
    names, f, loss, text = MODELS[model]
    lkw = "loss_kwargs=dict(boundary_scale=2.5)" if loss == "pseudo_huber_fn" else "loss_kwargs=dict()"
    n, B = dim("n"), dim("B")
    N = B if everything else B + dim("extra")
    X, _ = s.inp("X", N, *([] if f is ONE else [f]))
    y, _ = s.inp("y", N)
    start = {x: L[x][0] for x in names}
    best = optima(names, ep)
    s.I.opt_values = best
    env = dict(X=X, y=y, n=s.size(n), B=s.size(B), N=s.size(N))
    e = s.run(MSETUP + f"""
from copy import deepcopy
model = {text(start)}
other = {text(start)}
names, x0, bounds = model.get_opt_params()
result, look, seconds, probed, steps = optimize_from_tensors_mini_batch(
    model, X, y, n, B, N, num_epochs={ep}, keep_state={keep}, probe_previous={probe}, loss_fn={loss}, {lkw}, random_state=3, init_points=7, n_iter=9)
names1, x01, bounds1 = model.get_opt_params()
""", **env)
    where = "optimize_from_tensors_mini_batch"
    order = [str(x) for x in s.get_list(e.names)]
    draws = [x for x in pick(s, "random") if x["what"] == "choice"]
    scores, runs = [x["value"] for x in pick(s, "objective")], pick(s, "maximize")
    want_draws = 0 if keep or everything else ep
    if len(draws) != want_draws:
        return c.undecided("draws", f"{len(draws)} draws in {ep} epochs")
    if len(scores) != ep or len(runs) != ep:
        return c.bad("epochs", f"{len(runs)} optimiser runs in {ep} epochs", where)
    last = None
    for q in range(ep):
        lab = f"epoch{q}/"
        if draws:
            d = draws[q]
            c.check(lab + "distinct", d["replace"] is False, "batch points are drawn with replacement", where)
            c.eq(lab + "candidates", s, s.I.new_arr(d["cand"]), Spec([N], lambda i: i), where)
            if d["size"] is None or len(d["size"]) != 1:
                return c.undecided(lab + "size", "form of the draw")
            size = lift(d["size"][0])
            if size == N and not everything:
                return c.undecided(lab + "size", "the batch is part of a permutation")
            c.eq(lab + "size", s, s.size(size), B, where)
            batch = rows(s, size, lambda i: nf.mkop("choice", d["tag"], (), (N, size, i)))
        else:
            batch = rows(s, N, lambda i: i)
        learned = {}
        if q and "anisotropic" in (model, "anisotropic" if model == "partly-fixed" else ""):
            learned = {**FIXED.get(model, {}), **{k: v for k, v in best[q - 1].items() if k.startswith("length_scale")}}
        scaled = "X / np.array([" + ", ".join(repr(float(learned[f"length_scale{j}"])) for j in range(len(learned))) + "])" if learned else "X"
        trial = s.I.new_dict({x: mknum(nf.sym(f"trial[{x}]"), "float") for x in order})
        last = s.run(MSETUP + f"""
import numpy as np
nn, _ = NN_Wrapper({scaled}, n, nn_method="exact", algorithm="ball_tree").get_batch_nns(batch)
cr, pw, t, nt = model.make_train_tensors(batch, nn, X, y)
want = Bayes_optimize.make_obj_fn(model, t, nt, cr, pw, loss_fn={loss}, {lkw})(**trial)
""", model=e.other, batch=batch, trial=trial, **env)
        c.eq(lab + "score", s, scores[q], s.array(last.want), where)
        kw = runs[q]["kwargs"]
        for x, v in (("init_points", 7), ("n_iter", 9)):
            c.eq(lab + x, s, kw[x], const(v), where) if x in kw else c.bad(lab + x, x + " is dropped", where)
    inits = pick(s, "bayes_init")
    for z, init in enumerate(inits):
        c.check(f"optimiser{z}/names", sorted(map(str, init["pbounds"])) == sorted(order), f"bounds are given for {sorted(init['pbounds'])}", where)
        for x in order:
            for u in (0, 1):
                c.eq(f"optimiser{z}/bounds/{x}/{u}", s, init["pbounds"][x][u], const(L[x][1 + u]), where)
        c.eq(f"optimiser{z}/random_state", s, init["kwargs"]["random_state"], const(3), where) if "random_state" in init["kwargs"] else c.bad(f"optimiser{z}/random_state", "random_state is dropped", where)
    ev = s.I.events
    at = lambda x: next(i for i, y in enumerate(ev) if y is x)
    total = 0
    for q in range(ep):
        lo = at(runs[q - 1]) if q else -1
        got = [x["params"] for x in ev[lo + 1:at(runs[q])] if x["kind"] == "probe"]
        total += len(got)
        want = [start, *best[:q]] if probe else [start] if not q else []
        if len(got) != len(want):
            c.bad(f"epoch{q}/probes", f"{len(got)} points are probed, {len(want)} specified", where)
            continue
        for z, (g, w) in enumerate(zip(got, want)):
            if not isinstance(g, dict):
                return c.undecided(f"epoch{q}/probes", "form of the probed point")
            c.check(f"epoch{q}/probe{z}/names", sorted(map(str, g)) == sorted(order), f"probed point names {sorted(g)}", where)
            for x in order:
                c.eq(f"epoch{q}/probe{z}/{x}", s, g[x], const(w[x]), where)
    c.eq("probed", s, e.probed, const(total + 7 * ep), where)
    c.eq("steps", s, e.steps, const(9 * ep), where)
    c.check("new-model", e.result != e.model, "the caller's model object itself is returned", where)
    c.eq("caller/values", s, e.x01, s.array(e.x0), where)
    fin = s.run(MSETUP + f"""
want = {text(best[-1])}
want = want.optimize_scale(pw, nt)
state = lambda m: (m.kernel(pw), m.kernel(cr), m.posterior_mean(m.kernel(pw), m.kernel(cr), nt), m.posterior_variance(m.kernel(pw), m.kernel(cr)), m.noise.perturb(m.kernel(pw)), m.scale())
out, ref = state(result), state(want)
kept, first = state(model), state(other)
n1, x1, b1 = result.get_opt_params()
ind, _ = look.get_nns(X)
ind0, _ = NN_Wrapper(X, n, nn_method="exact", algorithm="ball_tree").get_nns(X)
""", pw=last.pw, cr=last.cr, nt=last.nt, result=e.result, model=e.model, other=e.other, look=e.look, **env)
    for lab, g, w in zip(STATE, s.get_list(fin.out), s.get_list(fin.ref)):
        c.eq("result/" + lab, s, g, s.array(w), where)
    for lab, g, w in zip(STATE, s.get_list(fin.kept), s.get_list(fin.first)):
        c.eq("caller/" + lab, s, g, s.array(w), where)
    c.check("names", [str(x) for x in s.get_list(fin.n1)] == order, "the optimised model reports other free hyperparameters", where)
    k = const(len(order))
    c.eq("values", s, fin.x1, Spec([k], lambda i: sum((nf.mkeq(i, const(j)) * const(best[-1][x]) for j, x in enumerate(order)), ZERO)), where)
    c.eq("bounds", s, fin.b1, s.array(e.bounds), where)
    c.eq("lookup", s, fin.ind, s.array(fin.ind0), where)


@rule("C28", "defaults", [(q,) for q in ("init_points", "n_iter", "both", "epochs")],
      "options left out take the defaults of the plain optimiser (5 points, 20 steps, one epoch)", equal=False)
def defaults(c, missing):
    s = S("numpy")
    names, f, loss, text = MODELS["noise-only"]
    n, B = dim("n"), dim("B")
    X, _ = s.inp("X", B, f)
    y, _ = s.inp("y", B)
    s.I.opt_values = optima(names, 2)
    kw = {"init_points": "n_iter=9, num_epochs=2", "n_iter": "init_points=7, num_epochs=2", "both": "num_epochs=2", "epochs": "init_points=7, n_iter=9"}[missing]
    e = s.run(MSETUP + f"result, look, seconds, probed, steps = optimize_from_tensors_mini_batch({text({x: L[x][0] for x in names})}, X, y, n, B, B, loss_fn={loss}, {kw})\n",
              X=X, y=y, n=s.size(n), B=s.size(B))
    runs = pick(s, "maximize")
    where = "optimize_from_tensors_mini_batch"
    ep = 1 if missing == "epochs" else 2
    c.check("runs", len(runs) == ep, f"{len(runs)} optimiser runs, {ep} specified", where)
    for r, m in zip(runs, "ab"):
        for q, given, d in (("init_points", 7, 5), ("n_iter", 9, 20)):
            want = d if missing in (q, "both") else given
            if q in r["kwargs"]:
                c.eq(f"{m}/{q}", s, r["kwargs"][q], const(want), where)
            else:
                c.check(f"{m}/{q}", q == "init_points" and want == 5, f"{q} is left to the optimiser", where)
    c.eq("steps", s, e.steps, const(ep * (20 if missing in ("n_iter", "both") else 9)), where)
