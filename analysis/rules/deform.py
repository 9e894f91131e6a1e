"""C06: metrics, difference tensors and deformations."""
from .common import *

DSETUP = SETUP + """
from MuyGPyS.gp.deformation import DifferenceIsotropy
from MuyGPyS.gp.tensors import fast_nn_update, make_fast_predict_tensors, batch_features_tensor
"""
FEAT = ("generic", "one-feature", "batch1", "one-neighbour", "features=neighbours", "batch=neighbours")


def fsizes(case):
    b, n, f = dim("b"), dim("n"), dim("f")
    if case == "one-feature":
        f = ONE
    if case == "batch1":
        b = ONE
    if case == "one-neighbour":
        n = ONE
    if case == "features=neighbours":
        f = n
    if case == "batch=neighbours":
        b = n
    return b, n, f


def data(s, b, n, f):
    test, T = s.inp("test", dim("M"), f)
    train, X = s.inp("train", dim("N"), f)
    ind, I = s.inp("ind", b, dt="int")
    nn, NN = s.inp("nn", b, n, dt="int")
    return test, T, train, X, ind, I, nn, NN


@rule("C06", "tensors", [(be, cs) for be in LOCAL for cs in FEAT],
      "crosswise/pairwise tensors of every deformation hold the (metric of the) feature differences of the indexed points")
def tensors(c, backend, case):
    s = S(backend)
    b, n, f = fsizes(case)
    test, T, train, X, ind, I, nn, NN = data(s, b, n, f)
    e = s.run(DSETUP + """
iso2 = Isotropy(F2, length_scale=Parameter(1.0))
isol = Isotropy(l2, length_scale=Parameter(1.0))
difi = DifferenceIsotropy(F2, length_scale=Parameter(1.0))
ani = Anisotropy(l2, length_scale=VectorParameter(Parameter(1.0), Parameter(2.0)))
o = []
for d in (iso2, isol, difi, ani):
    o.append((d.crosswise_tensor(test, train, ind, nn), d.pairwise_tensor(train, nn)))
feat = batch_features_tensor(train, ind)
""", test=test, train=train, ind=ind, nn=nn)
    cd = lambda i, j, k: T(I(i), k) - X(NN(i, j), k)
    pd = lambda i, p, q, k: X(NN(i, p), k) - X(NN(i, q), k)
    c2 = lambda i, j: ssum(f, lambda k: nf.power(cd(i, j, k), 2))
    p2 = lambda i, p, q: ssum(f, lambda k: nf.power(pd(i, p, q, k), 2))
    rt = lambda g: (lambda *a: nf.power(g(*a), HALF))
    items = [s.get_list(e.o, k) for k in range(4)]
    for (cr, pw), lab, wc, wp in zip(items, ("isotropy-F2", "isotropy-l2", "difference-isotropy", "anisotropy"),
                                     (Spec([b, n], c2), Spec([b, n], rt(c2)), Spec([b, n, f], cd), Spec([b, n, f], cd)),
                                     (Spec([b, n, n], p2), Spec([b, n, n], rt(p2)), Spec([b, n, n, f], pd), Spec([b, n, n, f], pd))):
        c.eq(lab + "/crosswise", s, cr, wc, "DeformationFn.crosswise_tensor")
        c.eq(lab + "/pairwise", s, pw, wp, "DeformationFn.pairwise_tensor")
    c.eq("features", s, e.feat, Spec([b, f], lambda i, k: X(I(i), k)), "batch_features_tensor")


@rule("C06", "length-scales", [(be, sh) for be in LOCAL for sh in ("pairwise", "crosswise")],
      "isotropic: distances divided by the length scale (squared for squared distances); anisotropic: each feature by its own")
def length_scales(c, backend, shape):
    s = S(backend)
    b, n, f = fsizes("generic")
    lead = [b, n, n] if shape == "pairwise" else [b, n]
    three = const(3)
    d, D = s.inp("dist", *lead)
    x, X = s.inp("diff", *lead, three)
    y, Y = s.inp("diffs", *lead, f)
    P = lambda k: s.num(k, positive=True)
    e = s.run(DSETUP + """
def params(*a):
    return VectorParameter(*[Parameter(x) for x in a])
iso2 = Isotropy(F2, length_scale=Parameter(ell))
isol = Isotropy(l2, length_scale=Parameter(ell))
dif2 = DifferenceIsotropy(F2, length_scale=Parameter(ell))
difl = DifferenceIsotropy(l2, length_scale=Parameter(ell))
ani2 = Anisotropy(F2, length_scale=params(e0, e1, e2))
anil = Anisotropy(l2, length_scale=params(e0, e1, e2))
a = (iso2(d), isol(d), dif2(y), difl(y), ani2(x), anil(x))
b = (iso2(d, length_scale=t), isol(d, length_scale=t), dif2(y, length_scale=t), difl(y, length_scale=t),
     ani2(x, length_scale0=t0, length_scale1=t1, length_scale2=t2), anil(x, length_scale0=t0, length_scale1=t1, length_scale2=t2))
""", d=d, x=x, y=y, ell=P("ell"), e0=P("e0"), e1=P("e1"), e2=P("e2"), t=P("t"), t0=P("t0"), t1=P("t1"), t2=P("t2"))

    def vec(names):
        return lambda k: sum((nf.sym(m) * nf.mkeq(k, const(j)) for j, m in enumerate(names)), ZERO)

    def want(l, ls):
        l = nf.sym(l)
        v = [nf.sym(q) for q in ls]
        sq = lambda *i: ssum(f, lambda k: nf.power(Y(*i, k) / l if False else Y(*i, k) * nf.power(l, -1), 2))
        an = lambda *i: sum((nf.power(X(*i, const(j)) * nf.power(v[j], -1), 2) for j in range(3)), ZERO)
        rt = lambda g: (lambda *a: nf.power(g(*a), HALF))
        return (lambda *i: D(*i) * nf.power(l, -2), lambda *i: D(*i) * nf.power(l, -1), sq, rt(sq), an, rt(an))
    labs = ("isotropy-F2", "isotropy-l2", "difference-F2", "difference-l2", "anisotropy-F2", "anisotropy-l2")
    for k, lab in enumerate(labs):
        c.eq(lab + "/stored", s, e.a[k], Spec(lead, want("ell", ("e0", "e1", "e2"))[k]), "DeformationFn.__call__")
        c.eq(lab + "/trial", s, e.b[k], Spec(lead, want("t", ("t0", "t1", "t2"))[k]), "DeformationFn.__call__")
    c.eq("input-unchanged", s, x, Spec(lead + [three], X))


@rule("C06", "vector-trial", [(be, o) for be in LOCAL for o in ("reversed", "partial0", "partial1", "extra")],
      "anisotropic trial length scales are matched by name whatever their order; missing ones keep the stored value")
def vector_trial(c, backend, order):
    s = S(backend)
    b, n, f = fsizes("generic")
    x, X = s.inp("diff", b, n, const(3))
    P = lambda k: s.num(k, positive=True)
    kw = {"reversed": "length_scale2=t2, length_scale1=t1, length_scale0=t0", "partial0": "length_scale1=t1",
          "partial1": "length_scale2=t2, length_scale0=t0", "extra": "smoothness=t, length_scale0=t0, noise=t, length_scale2=t2, length_scale1=t1"}[order]
    names = {"reversed": ("t0", "t1", "t2"), "partial0": ("e0", "t1", "e2"), "partial1": ("t0", "e1", "t2"), "extra": ("t0", "t1", "t2")}[order]
    e = s.run(DSETUP + f"""
a = Anisotropy(F2, length_scale=VectorParameter(Parameter(e0), Parameter(e1), Parameter(e2)))
o = a(x, {kw})
""", x=x, e0=P("e0"), e1=P("e1"), e2=P("e2"), t=P("t"), t0=P("t0"), t1=P("t1"), t2=P("t2"))
    c.eq("value", s, e.o, Spec([b, n], lambda *i: sum((nf.power(X(*i, const(j)) * nf.power(nf.sym(m), -1), 2)
                                                      for j, m in enumerate(names)), ZERO)), "Anisotropy.__call__")


@rule("C06", "mixed-bounds", [(be, p, o) for be in LOCAL for p in ("-xx", "x-x", "xx-", "-x-", "--x", "x--") for o in ("stored", "free", "all")],
      "each feature keeps its own length scale when some are fixed and some are free")
def mixed_bounds(c, backend, free, order):
    s = S(backend)
    b, n, f = fsizes("generic")
    x, X = s.inp("diff", b, n, const(3))
    vals = (0.5, 0.25, 2.0)
    given = [j for j in range(3) if order == "all" or order == "free" and free[j] == "x"]
    P = lambda k: s.num(k, positive=True)
    e = s.run(DSETUP + f"""
a = Anisotropy(F2, length_scale=VectorParameter({", ".join(f"Parameter({v}{', (0.01, 10.0)' if z == 'x' else ''})" for v, z in zip(vals, free))}))
o = a(x, {", ".join(f"length_scale{j}=t{j}" for j in given)})
v = a.length_scale()
""", x=x, t0=P("t0"), t1=P("t1"), t2=P("t2"))
    inv = [nf.power(nf.sym(f"t{j}"), -1) if j in given else const(1 / Fraction(vals[j])) for j in range(3)]
    c.eq("value", s, e.o, Spec([b, n], lambda *i: sum((nf.power(X(*i, const(j)) * inv[j], 2) for j in range(3)), ZERO)), "Anisotropy.__call__")
    c.eq("vector", s, e.v, Spec([const(3)], lambda k: sum((const(Fraction(vals[j])) * nf.mkeq(k, const(j)) for j in range(3)), ZERO)), "NamedVectorParameter.__call__")


@rule("C06", "many-features", [(be, t) for be in LOCAL for t in ("stored", "all", "some")],
      "with more than ten features each is divided by the length scale named for it, stored or passed by name")
def many(c, backend, trial):
    s = S(backend)
    b, n, _ = fsizes("generic")
    N = 12
    x, X = s.inp("diff", b, n, const(N))
    given = {"stored": (), "all": range(N - 1, -1, -1), "some": (10, 1, 11)}[trial]
    env = {f"{v}{j}": s.num(f"{v}{j}", positive=True) for v in "ev" for j in range(N)}
    e = s.run(DSETUP + f"""
a = Anisotropy(F2, length_scale=VectorParameter({', '.join(f'Parameter(e{j})' for j in range(N))}))
o = a(x, {', '.join(f'length_scale{j}=v{j}' for j in given)})
""", x=x, **env)
    names = [("v" if j in given else "e") + str(j) for j in range(N)]
    c.eq("value", s, e.o, Spec([b, n], lambda *i: sum((nf.power(X(*i, const(j)) * nf.power(nf.sym(m), -1), 2)
                                                      for j, m in enumerate(names)), ZERO)), "Anisotropy.__call__")


@rule("C06", "one-dimensional-data", [("numpy",)], "feature vectors given as 1-D arrays are a single feature")
def one_d(c, backend):
    s = S(backend)
    b, n, _ = fsizes("generic")
    test, T = s.inp("test", dim("M"))
    train, X = s.inp("train", dim("N"))
    ind, I = s.inp("ind", b, dt="int")
    nn, NN = s.inp("nn", b, n, dt="int")
    e = s.run(DSETUP + """
d = DifferenceIsotropy(F2, length_scale=Parameter(1.0))
cr = d.crosswise_tensor(test, train, ind, nn)
pw = d.pairwise_tensor(train, nn)
i = Isotropy(F2, length_scale=Parameter(1.0))
cr2 = i.crosswise_tensor(test, train, ind, nn)
""", test=test, train=train, ind=ind, nn=nn)
    c.eq("crosswise", s, e.cr, Spec([b, n, ONE], lambda i, j, k: T(I(i)) - X(NN(i, j))))
    c.eq("pairwise", s, e.pw, Spec([b, n, n, ONE], lambda i, p, q, k: X(NN(i, p)) - X(NN(i, q))))
    c.eq("distance", s, e.cr2, Spec([b, n], lambda i, j: nf.power(T(I(i)) - X(NN(i, j)), 2)))


@rule("C06", "dimension-mismatch", [(be, p, f) for be in NT for p, f in ((2, 3), (1, 3), (3, 1), (3, 2), (2, 1), (1, 2))], "an anisotropic model rejects features of another dimension")
def mismatch(c, backend, params, features):
    s = S(backend)
    x, X = s.inp("diff", dim("b"), dim("n"), const(features))
    text = ", ".join(f"Parameter({j + 1}.0)" for j in range(params))
    c.raises("anisotropy", s, lambda: s.run(DSETUP + f"Anisotropy(F2, length_scale=VectorParameter({text}))(x)", x=x), ("ValueError",))


@rule("C06", "length-scale-per-row", [(be, sh, m) for be in LOCAL for sh in ("pairwise", "crosswise") for m in ("F2", "l2")],
      "an isotropic trial length scale given per batch element divides that element's distances")
def per_row(c, backend, shape, metric):
    s = S(backend)
    b, n, f = fsizes("generic")
    lead = [b, n, n] if shape == "pairwise" else [b, n]
    d, D = s.inp("dist", *lead)
    v, V = s.inp("ells", b)
    e = s.run(DSETUP + f"o = Isotropy({metric}, length_scale=Parameter(1.0))(d, length_scale=v)\n", d=d, v=v)
    c.eq("value", s, e.o, Spec(lead, lambda *i: D(*i) * nf.power(V(i[0]), -2 if metric == "F2" else -1)), "Isotropy.__call__")
