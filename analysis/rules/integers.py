"""Whole-number data: every formula gives the same values when the caller's data happen to be stored as integers."""
from .common import *
from .pure import PSETUP, HSET, VALUES, OPS

NOTORCH = ("numpy", "jax", "mpi")
NJ = ("numpy", "jax")
# property -> (name, backends, model, arguments, those stored as integers, expression)
CASES_ = {
    "C01": [("mean", NOTORCH, "gp(scale=FixedScale(2.0))", ("K", "k", "y", "y2"), ("y", "y2"), "(m.posterior_mean(K, k, y), m.posterior_mean(K, k, y2), m.get_opt_mean_fn()(K, k, y2, noise=0.5))"),
            ("heteroscedastic", NJ, "gp(noise=HeteroscedasticNoise(het))", ("K", "k", "y", "het"), ("y",), "(m.posterior_mean(K, k, y),)")],
    "C03": [("fast", NJ, "gp()", ("K", "k", "y", "y2"), ("y", "y2"), "(m.fast_coefficients(K, y), m.fast_coefficients(K, y2), m.fast_posterior_mean(k, m.fast_coefficients(K, y2)))"),
            ("multivariate", NJ, "mv()", ("pd", "cd", "y2"), ("y2",), "(m.fast_coefficients(pd, y2), m.fast_posterior_mean(cd, m.fast_coefficients(pd, y2)))")],
    "C04": [("heteroscedastic", NJ, "gp(noise=HeteroscedasticNoise(het))", ("K", "k", "y", "het"), ("het", "y"), "(m.posterior_mean(K, k, y), m.posterior_variance(K, k))"),
            ("tensor", NJ, "gp()", ("het1", "nn"), ("het1",), "(make_heteroscedastic_tensor(het1, nn),)")],
    "C05": [("isotropic", NOTORCH, "gp()", ("pd", "cd"), ("pd", "cd"), "tuple(q(z) for z in (pd, cd) for q in (RBF(deformation=iso(2.0)), *(Matern(smoothness=Parameter(v), deformation=iso(2.0, l2)) for v in (0.5, 1.5, 2.5, float('inf')))))"),
            ("anisotropic", NOTORCH, "gp()", ("pw2", "cr2"), ("pw2", "cr2"), "tuple(q(z) for z in (pw2, cr2) for q in (RBF(deformation=Anisotropy(F2, length_scale=VectorParameter(Parameter(1.0), Parameter(2.0)))), Matern(smoothness=Parameter(2.5), deformation=ani())))"),
            ("general", ("numpy", "mpi"), "gp()", ("pd",), ("pd",), "(Matern(smoothness=Parameter(0.75), deformation=iso(1.0, l2))(pd),)")],
    "C06": [("isotropic", NJ, "gp()", ("train", "test", "ind", "nn"), ("train", "test"), "tuple(z for q in (iso(2.0), iso(2.0, l2)) for z in (q.pairwise_tensor(train, nn), q.crosswise_tensor(test, train, ind, nn)))"),
            ("mixed", NJ, "gp()", ("train", "test", "ind", "nn"), ("train",), "tuple(q.crosswise_tensor(test, train, ind, nn) for q in (iso(2.0), iso(2.0, l2), ani()))"),
            ("mixed-test", NJ, "gp()", ("train", "test", "ind", "nn"), ("test",), "tuple(q.crosswise_tensor(test, train, ind, nn) for q in (iso(2.0), iso(2.0, l2), ani()))"),
            ("differences", NJ, "gp()", ("train", "test", "ind", "nn"), ("train", "test"), "tuple(z for q in (ani(), DifferenceIsotropy(F2, length_scale=Parameter(2.0))) for z in (q.pairwise_tensor(train, nn), q.crosswise_tensor(test, train, ind, nn)))")],
    "C08": [("univariate", NOTORCH, "gp()", ("mean", "t", "var"), ("t",), "(mse_fn(mean, t), lool_fn(mean, t, var, 2.0), looph_fn(mean, t, var, 2.0), pseudo_huber_fn(mean, t), lool_fn_unscaled(mean, t, var))"),
            ("multivariate", NOTORCH, "gp()", ("mean2", "t2", "var2", "sc2"), ("t2",), "(mse_fn(mean2, t2), lool_fn(mean2, t2, var2, sc2), cross_entropy_fn(mean2, t2))")],
    "C11": [("analytic", NOTORCH, "gp(scale=AnalyticScale())", ("K", "y"), ("y",), "(m.optimize_scale(K, y).scale(), m.scale.get_opt_fn(m)(K, y))"),
            ("multivariate", NOTORCH, "mv()", ("pd", "y2"), ("y2",), "tuple(q.scale() for q in m.optimize_scale(pd, y2).models)")],
    "C14": [("posterior", NOTORCH, "mv()", ("pd", "cd", "y2"), ("y2",), "(m.posterior_mean(pd, cd, y2), m.posterior_variance(pd, cd))")],
    "C15": [("tensors", NJ, "gp()", ("ind", "nn", "train", "test", "labels"), ("train", "test", "labels"), "(*m.make_predict_tensors(ind, nn, test, train, labels), *m.make_train_tensors(ind, nn, train, labels))"),
            ("mixed", NJ, "gp()", ("ind", "nn", "train", "test", "labels"), ("train",), "(*m.make_predict_tensors(ind, nn, test, train, labels), *m.make_train_tensors(ind, nn, train, labels))"),
            ("anisotropic", NJ, "MuyGPS(RBF(deformation=ani()))", ("ind", "nn", "train", "test", "labels"), ("train", "test", "labels"), "(*m.make_predict_tensors(ind, nn, test, train, labels), *m.make_train_tensors(ind, nn, train, labels))"),
            ("multivariate", NJ, "mv()", ("ind", "nn", "train", "test", "labels"), ("train", "test", "labels"), "(*m.make_predict_tensors(ind, nn, test, train, labels), *m.make_train_tensors(ind, nn, train, labels))")],
    "C23": [("shear", NJ, "ShearKernel(deformation=DifferenceIsotropy(F2, length_scale=Parameter(2.0)))", ("pw2", "cr2"), ("pw2", "cr2"), "(m(pw2), m(cr2))")],
}


def values(c, s, model, args, ints, expr, whole):
    env = {}
    for x in args:
        dims, dt = VALUES[x]
        nf.INT_ARRAYS.discard(x)
        ref, _ = s.inp(x, *dims, dt="int" if x in ints and whole else dt)
        if x in ints:
            nf.INT_ARRAYS.add(x)
        env[x] = ref
    e = s.run(PSETUP + HSET + f"""
def op(m, {', '.join(args)}):
    return {expr}
out = op({model}, {', '.join(args)})
""", **env)
    return [s.array(q) for q in s.get_list(e.out)]


def make(prop):
    def whole_numbers(c, backend, name):
        _, _, model, args, ints, expr = next(x for x in CASES_[prop] if x[0] == name)
        a, b = S(backend), S(backend)
        got, want = values(c, a, model, args, ints, expr, True), values(c, b, model, args, ints, expr, False)
        for k, (p, q) in enumerate(zip(got, want)):
            c.eq(f"{k}", a, p, q, name)
        c.check("results", len(got) == len(want), f"{len(got)} results, {len(want)} with floating-point data", name)
    rule(prop, "whole-numbers", [(be, x[0]) for x in CASES_[prop] for be in x[1]],
         "integer-typed data give the values of the same data as floating-point numbers")(whole_numbers)


for _p in CASES_:
    make(_p)
