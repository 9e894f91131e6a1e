"""C21: operations leave the caller's arrays, lists and dictionaries as they were; C22: separately built models are independent."""
from .common import *
from .loss import LSETUP
from .. import peval
from ..values import mknum

PSETUP = LSETUP + """
from MuyGPyS.gp.deformation import DifferenceIsotropy
from MuyGPyS.gp.tensors import make_heteroscedastic_tensor, fast_nn_update, make_fast_predict_tensors
from MuyGPyS.gp.tensors import batch_features_tensor
from MuyGPyS.neighbors import NN_Wrapper
from MuyGPyS.optimize.batch import sample_batch, sample_balanced_batch, full_filtered_batch, get_balanced_batch
from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
def iso(l=1.0, m=F2):
    return Isotropy(m, length_scale=Parameter(l))
def ani():
    return Anisotropy(l2, length_scale=VectorParameter(Parameter(1.0), Parameter(2.0)))
def gp(noise=None, **kw):
    return MuyGPS(RBF(deformation=iso()), noise=HomoscedasticNoise(0.25) if noise is None else noise, **kw)
def mv():
    a = dict(kernel=RBF(deformation=iso()), noise=HomoscedasticNoise(0.25), scale=AnalyticScale())
    b = dict(kernel=Matern(smoothness=Parameter(1.5), deformation=iso(2.0, l2)), noise=HomoscedasticNoise(0.5), scale=AnalyticScale())
    return MultivariateMuyGPS(a, b)
"""
b, n, f, N, M, r = (dim(x) for x in "bnfNMr")
TWO = const(2)
# caller's values: name -> (sizes, dtype)
VALUES = dict(train=((N, TWO), "float"), test=((M, TWO), "float"), labels=((N, TWO), "float"), ylong=((N,), "float"),
              ind=((b,), "int"), nn=((b, n), "int"), nnall=((N, n), "int"), het1=((N,), "float"), het=((b, n), "float"),
              pd=((b, n, n), "float"), cd=((b, n), "float"), pw2=((b, n, n, TWO), "float"), cr2=((b, n, TWO), "float"),
              K=((b, n, n), "float"), k=((b, n), "float"), y=((b, n), "float"), y2=((b, n, TWO), "float"),
              K2=((b, n, n, TWO), "float"), k2=((b, n, TWO), "float"), t=((b,), "float"), cls=((N,), "int"), t2=((b, TWO), "float"),
              mean=((b,), "float"), mean2=((b, TWO), "float"), var=((b,), "float"), var2=((b, TWO), "float"),
              co=((b, n), "float"), co2=((b, n, TWO), "float"), sc2=((TWO,), "float"))
ALLB = BACKENDS
NOMPI = LOCAL
NOTORCH = ("numpy", "jax", "mpi")
KD = dict(tensors=(ALLB, "m = gp()\no = m.make_predict_tensors(ind, nn, test, train, ylong)\no = m.make_train_tensors(ind, nn, train, ylong)"),
          anisotropic_tensors=(ALLB, "m = MuyGPS(RBF(deformation=ani()))\no = m.make_predict_tensors(ind, nn, None, train, labels)\no = m.make_train_tensors(ind, nn, train, labels)"),
          multivariate_tensors=(ALLB, "m = mv()\no = m.make_predict_tensors(ind, nn, test, train, labels)\no = m.make_train_tensors(ind, nn, train, labels)"),
          heteroscedastic_tensor=(NOMPI, "o = make_heteroscedastic_tensor(het1, nn)"),
          fast_tensors=(NOMPI, "o = fast_nn_update(nnall)\no = make_fast_predict_tensors(o, train, labels)"),
          batch_features=(ALLB, "o = batch_features_tensor(train, ind)"),
          kernels=(ALLB, "for q in (RBF(deformation=iso()), RBF(deformation=iso(1.0, l2)), Matern(smoothness=Parameter(0.5), deformation=iso()), Matern(smoothness=Parameter(1.5), deformation=iso(1.0, l2)), Matern(smoothness=Parameter(2.5), deformation=iso(1.0, l2))):\n    o = q(pd)\n    o = q(cd)\n    g = q.get_opt_fn()\n    o = g(pd)"),
          general_matern=(("numpy", "mpi"), "q = Matern(smoothness=Parameter(0.75), deformation=iso(1.0, l2))\no = q(pd)\no = q(cd)"),
          anisotropic_kernels=(ALLB, "for q in (RBF(deformation=Anisotropy(F2, length_scale=VectorParameter(Parameter(1.0), Parameter(2.0)))), Matern(smoothness=Parameter(0.5), deformation=ani()), Matern(smoothness=Parameter(2.5), deformation=ani())):\n    o = q(pw2)\n    o = q(cr2)\n    g = q.get_opt_fn()\n    o = g(pw2)"),
          posterior=(ALLB, "m = gp(scale=FixedScale(2.0))\no = m.posterior_mean(K, k, y)\no = m.posterior_mean(K, k, y2)\no = m.posterior_variance(K, k)"),
          heteroscedastic_posterior=(NOMPI, "m = gp(noise=HeteroscedasticNoise(het))\no = m.posterior_mean(K, k, y)\no = m.posterior_variance(K, k)\nh = m.noise()"),
          fast=(NOMPI, "m = gp()\no = m.fast_coefficients(K, y)\no = m.fast_posterior_mean(k, o)\no = m.fast_posterior_mean(k, co)"),
          multivariate_fast=(NOMPI, "m = mv()\no = m.fast_coefficients(pd, y2)\no = m.fast_posterior_mean(cd, o)\no = m.fast_posterior_mean(cd, co2)"),
          multivariate_posterior=(ALLB, "m = mv()\no = m.posterior_mean(pd, cd, y2)\no = m.posterior_variance(pd, cd)"),
          losses=(ALLB, "o = mse_fn(mean, t)\no = lool_fn(mean, t, var, 2.0)\no = pseudo_huber_fn(mean, t)\no = looph_fn(mean, t, var, 2.0)\no = lool_fn_unscaled(mean, t, var)"),
          multivariate_losses=(ALLB, "o = mse_fn(mean2, t2)\no = lool_fn(mean2, t2, var2, sc2)\no = cross_entropy_fn(mean2, t2)"),
          analytic_scale=(ALLB, "m = gp(scale=AnalyticScale())\no = m.optimize_scale(K, y)"),
          multivariate_scale=(ALLB, "m = mv()\no = m.optimize_scale(pd, y2)"),
          down_scale=(("numpy", "torch", "mpi"), "m = gp(scale=DownSampleScale(down_count=2, iteration_count=1))\no = m.optimize_scale(K, y)"),
          lbfgs=(NOTORCH, "m = MuyGPS(RBF(deformation=Isotropy(F2, length_scale=Parameter(0.5, (0.125, 8.0)))), noise=HomoscedasticNoise(0.25, (0.125, 1.0)), scale=AnalyticScale())\no = L_BFGS_B_optimize(m, t, y, cd, pd, loss_fn=lool_fn)"),
          bayes=(NOTORCH, "m = MuyGPS(RBF(deformation=Isotropy(F2, length_scale=Parameter(0.5, (0.125, 8.0)))), noise=HomoscedasticNoise(0.25, (0.125, 1.0)), scale=AnalyticScale())\no = Bayes_optimize(m, t, y, cd, pd, loss_fn=mse_fn)"),
          exact_neighbors=(NT, "w = NN_Wrapper(train, 3)\no = w.get_nns(test)\no = w.get_batch_nns(ind)"),
          hnsw_neighbors=(NT, "w = NN_Wrapper(train, 3, nn_method='hnsw')\no = w.get_nns(test)\no = w.get_batch_nns(ind)"),
          batches=(NT, "w = NN_Wrapper(train, 3)\no = sample_batch(w, 7, 20)\no = sample_balanced_batch(w, cls, 8)\no = full_filtered_batch(w, cls)\no = get_balanced_batch(w, cls, 8)"),
          )


def unchanged(c, s, refs, where):
    for name, (ref, sym, dims) in refs.items():
        c.eq("input/" + name, s, ref, Spec(list(dims), sym), where)


@rule("C21", "arrays", [(be, p) for p, (bs, _) in KD.items() for be in bs],
      "after the call every array the caller passed still holds the caller's values")
def arrays(c, backend, prog):
    s = S(backend, enabled=("hnswlib",))
    refs = {}
    text = KD[prog][1]
    import re
    names = set(re.findall(r"[A-Za-z_0-9]+", text))
    for name, (dims, dt) in VALUES.items():
        if name in names:
            ref, sym = s.inp(name, *dims, dt=dt)
            refs[name] = (ref, sym, dims)
    s.run(PSETUP + text, **{k: v[0] for k, v in refs.items()})
    unchanged(c, s, refs, prog)


HSET = """
from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParameter
from MuyGPyS.gp.kernels.experimental import ShearKernel
def hier(knots):
    v = VectorParameter(*[Parameter(x) for x in (1.0, 2.0, 0.5, 0.25)])
    return RBF(deformation=Isotropy(F2, length_scale=HierarchicalParameter(knots, v, RBF(deformation=iso()), noise=HomoscedasticNoise(0.125))))
"""
# operation -> (backends, model, arguments, expression)
OPS = dict(
    tensors=(NOMPI, "gp()", ("ind", "nn", "train", "labels"), "m.make_predict_tensors(ind, nn, None, train, labels)"),
    train_tensors=(NOMPI, "MuyGPS(RBF(deformation=ani()))", ("ind", "nn", "train", "labels"), "m.make_train_tensors(ind, nn, train, labels)"),
    kernel=(ALLB, "gp()", ("pd",), "(m.kernel(pd), m.kernel.get_opt_fn()(pd, length_scale=3.0), m.kernel.Kout())"),
    matern=(ALLB, "MuyGPS(Matern(smoothness=Parameter(1.5), deformation=iso(1.0, l2)))", ("pd",), "(m.kernel(pd), m.kernel.get_opt_fn()(pd, length_scale=3.0))"),
    posterior=(ALLB, "gp(scale=FixedScale(2.0))", ("K", "k", "y"), "(m.posterior_mean(K, k, y), m.posterior_variance(K, k))"),
    fast=(NOMPI, "gp()", ("K", "k", "y"), "(m.fast_coefficients(K, y), m.fast_posterior_mean(k, m.fast_coefficients(K, y)))"),
    multivariate=(ALLB, "mv()", ("pd", "cd", "y2"), "(m.posterior_mean(pd, cd, y2), m.posterior_variance(pd, cd))"),
    trial_mean=(ALLB, "gp()", ("K", "k", "y"), "(m.get_opt_mean_fn()(K, k, y, noise=0.5), m.get_opt_var_fn()(K, k, noise=0.5, scale=1.0))"),
    loss=(ALLB, "gp()", ("mean", "t", "var"), "(mse_fn(mean, t), lool_fn(mean, t, var, 2.0), looph_fn(mean, t, var, 2.0))"),
    objective=(("numpy", "mpi"), "gp()", ("t", "y", "cd", "pd"), "[Bayes_optimize.make_obj_fn(m, t, y, cd, pd, loss_fn=mse_fn)(length_scale=z) for z in (2.0, 3.0)]"),
    analytic_scale=(ALLB, "gp(scale=AnalyticScale())", ("K", "y"), "(m.optimize_scale(K, y).scale(), m.scale.get_opt_fn(m)(K, y))"),
    deformations=(NOMPI, "gp()", ("train", "ind", "nn"), "(iso().crosswise_tensor(train, train, ind, nn), ani().pairwise_tensor(train, nn), DifferenceIsotropy(F2, length_scale=Parameter(2.0)).pairwise_tensor(train, nn))"),
    fast_tensors=(NOMPI, "gp()", ("train", "labels", "nnall"), "(fast_nn_update(nnall), *make_fast_predict_tensors(nnall, train, labels))"),
    multivariate_loss=(ALLB, "gp()", ("mean2", "t2", "var2", "sc2"), "(mse_fn(mean2, t2), lool_fn(mean2, t2, var2, sc2), cross_entropy_fn(mean2, t2))"),
    multivariate_scale=(ALLB, "mv()", ("pd", "y2"), "tuple(q.scale() for q in m.optimize_scale(pd, y2).models)"),
    shear=(NOMPI, "ShearKernel(deformation=DifferenceIsotropy(F2, length_scale=Parameter(2.0)))", ("pw2", "cr2"), "(m(pw2), m(cr2), m(pw2, length_scale=3.0), m.Kout())"),
    hierarchical=(NOMPI, "hier(KNOTS)", ("t2", "pd"), "(m(pd, batch_features=t2), m(pd, batch_features=t2, length_scale0=3.0))"),
    exact_neighbors=(NT, "NN_Wrapper(KNOTS, 3)", ("test",), "m.get_nns(test)"),
    hnsw_neighbors=(NT, "NN_Wrapper(KNOTS, 3, nn_method='hnsw')", ("test",), "m.get_nns(test)"),
)


CALLS = next(iter(nf.atoms_of(nf.sym("CALLS"))))


def counts(a):
    """the different values the array takes as the number of earlier calls grows"""
    if a is None or CALLS not in nf.atoms_of(a.body):
        return [a]
    out = {}
    for n in [*range(1, 200), 10 ** 3, 10 ** 4, 10 ** 5, 10 ** 6]:
        out.setdefault(nf.map_atoms(a.body, lambda x: const(n) if x == CALLS else None), n)
        if len(out) == 4:
            break
    return [a.with_(body=p) for p in out]


@rule("C21", "history", [(be, o, sz) for o, v in OPS.items() for be in v[0] for sz in ("same-sizes", "other-sizes", "overwritten")
                         if sz != "overwritten" or be != "jax"],
      "an operation on values A gives the same result whether or not the model was used before on other values (of the same or other sizes, or in the same arrays)")
def history(c, backend, op, case):
    peval.COARSE = True
    s = S(backend, enabled=("hnswlib",))
    _, model, args, expr = OPS[op]
    env, arga, argb = {}, [], []
    s.arr_dims = {}
    for x in args:
        dims, dt = VALUES[x]
        od = dims if case != "other-sizes" else tuple(dim("o" + str(d)) if d.const() is None else d for d in dims)
        env[x + "_a"] = s.inp(x + "_a", *dims, dt=dt)[0]
        env[x + "_b"] = s.inp(x + "_b", *od, dt=dt)[0]
        s.arr_dims.update({x + "_a": dims, x + "_b": od})
        arga.append(x + "_a")
        argb.append(x + "_b")
    knots = s.inp("KNOTS", const(4), TWO)[0]
    fresh = []
    for z, av in (("a", arga), ("b", argb)):      # each in a program of its own
        s1 = S(backend, enabled=("hnswlib",))
        env1 = {q: s1.inp(q, *(s.arr_dims[q]), dt=VALUES[q[:-2]][1])[0] for q in av}
        e1 = s1.run(PSETUP + HSET + f"""
def op(m, {', '.join(args)}):
    return {expr}
out = op({model}, {', '.join(av)})
""", KNOTS=s1.inp("KNOTS", const(4), TWO)[0], **env1)
        fresh.append([s1.array(q) for q in s1.get_list(e1.out)])
    if case == "overwritten":
        fill = "\n".join(f"{x}_w = {x}_a.{'clone' if backend == 'torch' else 'copy'}()" for x in args)
        over = "\n".join(f"{x}_w[...] = {x}_b" for x in args)
        e = s.run(PSETUP + HSET + f"""
def op(m, {', '.join(args)}):
    return {expr}
model = {model}
{fill}
unused = op(model, {', '.join(x + '_w' for x in args)})
{over}
other = op(model, {', '.join(x + '_w' for x in args)})
""", KNOTS=knots, **env)
        for k, (p, q) in enumerate(zip(s.get_list(e.other), fresh[1])):
            c.eq(f"overwritten/{k}", s, p, q, op)
        return
    e = s.run(PSETUP + HSET + f"""
def op(m, {', '.join(args)}):
    return {expr}
model = {model}
first = op(model, {', '.join(arga)})
other = op(model, {', '.join(argb)})
again = op(model, {', '.join(arga)})
""", KNOTS=knots, **env)
    for lab, g, w in (("first", e.first, fresh[0]), ("other", e.other, fresh[1]), ("again", e.again, fresh[0])):
        for k, (p, q) in enumerate(zip(s.get_list(g), w)):
            c.eq(f"{lab}/{k}", s, p, q, op)
    if case != "same-sizes":
        return
    # state that every call advances (a call counter, a growing log): the result must not depend on how far it got
    def again():
        return s.get_list(s.call(e.op, e.model, *[env[q] for q in arga]))
    free, grow = s.counters(again)
    if free or grow:
        for _ in range(8):
            out = again()
        for k, (p, q) in enumerate(zip(out, fresh[0])):
            c.eq(f"repeated/{k}", s, p, q, op)
    if free:
        s.advance(free, num_poly(s.num("CALLS", positive=True, kind="int")))
        mark = len(s.I.events)
        for k, (p, q) in enumerate(zip(again(), fresh[0])):
            for p in counts(s.array(p)):
                c.eq(f"any-count/{k}", s, p, q, op)
        for ev in s.I.events[mark:]:
            pc = ev["pc"] if ev["kind"] == "raise" else ZERO
            if CALLS in nf.atoms_of(pc):
                c.bad("any-count/raise", f"raises {ev['exc']} ({ev['msg']}) when {nf.show(pc, 200)}", ev["where"])


PAIRS = dict(rbf=("RBF()", "x.set_params(length_scale=Parameter(7.0))", "(x(pd), x.Kout(), x.get_opt_fn()(pd))", "RBF(deformation=iso(7.0))"),
             matern=("Matern()", "x.set_params(length_scale=Parameter(7.0))", "(x(pd), x.get_opt_fn()(pd))", "Matern(deformation=iso(7.0, l2))"),
             smoothness=("Matern()", "x.set_params(smoothness=Parameter(1.5))", "(x(pd), x.get_opt_fn()(pd))", "Matern(smoothness=Parameter(1.5))"),
             free=("Matern()", "x.set_params(smoothness=Parameter(1.5, (0.5, 2.5)))", "tuple(x.get_opt_params()[1]) + tuple(q for w in x.get_opt_params()[2] for q in w)", "Matern(smoothness=Parameter(1.5, (0.5, 2.5)))"),
             rebound=("Matern(smoothness=Parameter(1.5, (0.5, 2.5)))", "x.set_params(smoothness=Parameter(1.0, (0.25, 2.0)))", "tuple(x.get_opt_params()[1]) + tuple(q for w in x.get_opt_params()[2] for q in w)", "Matern(smoothness=Parameter(1.0, (0.25, 2.0)))"),
             model=("MuyGPS(RBF())", "x.kernel.set_params(length_scale=Parameter(7.0))", "(x.kernel(pd), x.posterior_mean(K, k, y), x.posterior_variance(K, k))", "MuyGPS(RBF(deformation=iso(7.0)))"),
             scale=("MuyGPS(RBF())", "x.optimize_scale(K, y)", "(1.0 if x.scale.trained else 0.0, x.scale(), x.noise())", "opt(MuyGPS(RBF(deformation=iso()), noise=HomoscedasticNoise(0.0), scale=FixedScale()))"),
             analytic=("gp(scale=AnalyticScale())", "x.optimize_scale(K, y)", "(1.0 if x.scale.trained else 0.0, x.scale(), x.posterior_variance(K, k))", "opt(gp(scale=AnalyticScale()))"),
             multivariate=("mv()", "x.optimize_scale(pd, y2)", "(x.models[0].scale(), x.models[1].scale(), x.posterior_variance(pd, cd))", "opt(mv(), pd, y2)"),
             anisotropic=("RBF(deformation=Anisotropy(F2, length_scale=VectorParameter(Parameter(1.0), Parameter(2.0))))", "x.set_params(length_scale1=Parameter(7.0))", "(x(pw2), x.get_opt_fn()(pw2))",
                          "RBF(deformation=Anisotropy(F2, length_scale=VectorParameter(Parameter(1.0), Parameter(7.0))))"),
             )


@rule("C22", "independent", [(be, p) for be in BACKENDS for p in PAIRS if not (be in ("jax", "torch") and p in ("free", "rebound"))],
      "changing the hyperparameters of one model takes effect on it and leaves models built separately, before or after, as they were")
def independent(c, backend, pair):
    s = S(backend)
    build, change, probe, equal = PAIRS[pair]
    env = {x: s.inp(x, *VALUES[x][0])[0] for x in ("pd", "K", "k", "y", "pw2", "cd", "y2")}
    e = s.run(PSETUP + f"""
def opt(x, *args):
    x.optimize_scale(*(args or (K, y)))
    return x
def probe(x):
    return {probe}
def change(x):
    {change}
first, second = {build}, {build}
before = probe(first)
change(second)
after = probe(first)
third = probe({build})
changed = probe(second)
want = probe({equal})
used = {build}
unused = probe(used)
change(used)
reused = probe(used)
""", **env)
    for lab, g, w in (("earlier", e.after, e.before), ("later", e.third, e.before), ("effect", e.changed, e.want), ("after use", e.reused, e.want)):
        for k, (p, q) in enumerate(zip(s.get_list(g), s.get_list(w))):
            c.eq(f"{lab}/{k}", s, p, s.array(q), pair)
