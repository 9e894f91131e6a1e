"""C05: kernel values."""
from .common import *


def closed(nu, z):
    """Matern correlation at scaled distance z"""
    if nu == "0.5":
        return nf.mkexp(-z)
    if nu == "1.5":
        t = nf.power(const(3), HALF) * z
        return (ONE + t) * nf.mkexp(-t)
    if nu == "2.5":
        t = nf.power(const(5), HALF) * z
        return (ONE + t + t * t.scale(nf.Fraction(1, 3))) * nf.mkexp(-t)
    if nu == "inf":
        return nf.mkexp((z * z).scale(-HALF))
    v = nu if isinstance(nu, Poly) else const(nf.Fraction(nu))
    t = nf.power(v.scale(2), HALF) * z
    return (nf.mkfn("pow", const(2), ONE - v) * nf.power(nf.mkfn("gamma", v), -1) * nf.mkfn("pow", t, v)
            * nf.mkfn("kv", v, t))


def src_nu(nu):
    return {"inf": "mm.inf"}.get(nu, nu)


KS = SETUP + "import MuyGPyS._src.math as mm\n"


@rule("C05", "rbf", [(be, d, sh) for be in LOCAL for d in ("isotropic", "anisotropic") for sh in ("pairwise", "crosswise")],
      "RBF == exp(-d/2) of the length-scaled squared distance; trial length scales replace the stored one; Kout == 1")
def rbf(c, backend, deform, shape):
    s = S(backend)
    b, n = dim("b"), dim("n")
    lead = [b, n, n] if shape == "pairwise" else [b, n]
    P = lambda k: s.num(k, positive=True)
    env = dict(ell=P("ell"), e0=P("e0"), e1=P("e1"), t=P("t"), t0=P("t0"), t1=P("t1"))
    if deform == "isotropic":
        x, X = s.inp("dist", *lead)
        text, kw = "Isotropy(F2, length_scale=Parameter(ell))", "length_scale=t"
        sq = lambda tr: lambda *i: X(*i) * nf.power(nf.sym("t" if tr else "ell"), -2)
    else:
        x, X = s.inp("diff", *lead, const(2))
        text, kw = "Anisotropy(F2, length_scale=VectorParameter(Parameter(e0), Parameter(e1)))", "length_scale0=t0, length_scale1=t1"
        sq = lambda tr: lambda *i: sum((nf.power(X(*i, const(j)) * nf.power(nf.sym(("t" if tr else "e") + str(j)), -1), 2) for j in (0, 1)), ZERO)
    e = s.run(KS + f"""
k = RBF(deformation={text})
o = k(x)
p = k(x, {kw})
q = k.get_opt_fn()(x, {kw})
kout = k.Kout()
""", x=x, **env)
    want = lambda tr: Spec(lead, lambda *i: nf.mkexp(sq(tr)(*i).scale(-HALF)))
    c.eq("stored", s, e.o, want(False), "RBF.__call__")
    c.eq("trial", s, e.p, want(True), "RBF.__call__")
    c.eq("optimisation", s, e.q, want(True), "RBF.get_opt_fn")
    c.eq("Kout", s, e.kout, ONE, "RBF.Kout")


def away_from_zero(s, X, lead):
    """distances are non zero (the general-order form is specified there)"""
    f = A.free_idx(tuple(A.axis(z) for z in lead))
    s.fact(ONE - nf.mkeq(X(*[x[0] if x else ZERO for x in f]), ZERO))
    if len(lead) == 3:
        s.fact(ONE - nf.mkeq(f[1][0], f[2][0]))


@rule("C05", "matern", [(be, nu, sh) for be in LOCAL for nu in ("0.5", "1.5", "2.5", "inf", "0.75", "3.5", "1.0", "0.05", "12.5", "60.0", "1000.0")
                        for sh in ("pairwise", "crosswise") if be != "torch" or nu in ("0.5", "1.5", "2.5", "inf")],
      "Matern of a fixed smoothness equals its closed form (or the Bessel form for non half-integer orders) of the scaled distance")
def matern(c, backend, nu, shape):
    s = S(backend)
    b, n = dim("b"), dim("n")
    lead = [b, n, n] if shape == "pairwise" else [b, n]
    nf.POSITIVE_SYMS.add("dist")
    x, X = s.inp("dist", *lead)
    P = lambda k: s.num(k, positive=True)
    if nu not in ("0.5", "1.5", "2.5", "inf"):
        away_from_zero(s, X, lead)
    e = s.run(KS + f"""
k = Matern(smoothness=Parameter({src_nu(nu)}), deformation=Isotropy(l2, length_scale=Parameter(ell)))
o = k(x)
p = k(x, length_scale=t)
q = k.get_opt_fn()(x, length_scale=t)
kout = k.Kout()
""", x=x, ell=P("ell"), t=P("t"))
    want = lambda l: Spec(lead, lambda *i: closed(nu, X(*i) * nf.power(nf.sym(l), -1)))
    c.eq("stored", s, e.o, want("ell"), "Matern.__call__")
    c.eq("trial", s, e.p, want("t"), "Matern.__call__")
    c.eq("optimisation", s, e.q, want("t"), "Matern.get_opt_fn")
    c.eq("Kout", s, e.kout, ONE, "Matern.Kout")
    nf.POSITIVE_SYMS.discard("dist")


@rule("C05", "matern-free-smoothness", [(be, v, sh) for be in ("numpy", "jax") for v in ("0.5", "1.5", "0.9") for sh in ("pairwise", "crosswise")],
      "a Matern kernel with a free smoothness evaluates the general form at the stored and at the trial smoothness")
def matern_free(c, backend, v, shape):
    s = S(backend)
    b, n = dim("b"), dim("n")
    lead = [b, n, n] if shape == "pairwise" else [b, n]
    nf.POSITIVE_SYMS.add("dist")
    x, X = s.inp("dist", *lead)
    P = lambda k: s.num(k, positive=True)
    away_from_zero(s, X, lead)
    e = s.run(KS + f"""
k = Matern(smoothness=Parameter({v}, (0.1, 5.0)), deformation=Isotropy(l2, length_scale=Parameter(ell)))
o = k(x)
p = k(x, smoothness=nu)
q = k.get_opt_fn()(x, smoothness=nu, length_scale=t)
""", x=x, ell=P("ell"), t=P("t"), nu=P("nu"))
    z = lambda l: (lambda *i: X(*i) * nf.power(nf.sym(l), -1))
    general = lambda nu, l: Spec(lead, lambda *i: bessel(nu, z(l)(*i)))
    c.eq("stored", s, e.o, general(const(nf.Fraction(v)), "ell"), "Matern.__call__")
    c.eq("trial", s, e.p, general(nf.sym("nu"), "ell"), "Matern.__call__")
    c.eq("optimisation", s, e.q, general(nf.sym("nu"), "t"), "Matern.get_opt_fn")
    nf.POSITIVE_SYMS.discard("dist")


def bessel(v, z):
    t = nf.power(v.scale(2), HALF) * z
    return (nf.mkfn("pow", const(2), ONE - v) * nf.power(nf.mkfn("gamma", v), -1) * nf.mkfn("pow", t, v)
            * nf.mkfn("kv", v, t))


@rule("C05", "unit-at-zero", [(be, nu) for be in LOCAL for nu in ("rbf", "0.5", "1.5", "2.5", "inf")],
      "the correlation of a point with itself equals Kout")
def unit(c, backend, nu):
    s = S(backend)
    e = s.run(KS + f"""
k = {'RBF()' if nu == 'rbf' else f'Matern(smoothness=Parameter({src_nu(nu)}))'}
o = k(mm.zeros((b, n)))
""", b=s.size(dim("b")), n=s.size(dim("n")))
    c.eq("value", s, e.o, Spec([dim("b"), dim("n")], lambda *i: ONE), "KernelFn.__call__")


@rule("C05", "smoothness-update", [(be, a, b_) for be in LOCAL for a, b_ in (("0.5", "1.5"), ("2.5", "0.5"), ("1.5", "inf"))],
      "rebuilding a kernel after its smoothness changed switches to the matching form")
def update(c, backend, a, b_):
    s = S(backend)
    b, n = dim("b"), dim("n")
    nf.POSITIVE_SYMS.add("dist")
    x, X = s.inp("dist", b, n)
    e = s.run(KS + f"""
m = MuyGPS(kernel=Matern(smoothness=Parameter({src_nu(a)}), deformation=Isotropy(l2, length_scale=Parameter(ell))))
m.kernel.set_params(smoothness=Parameter({src_nu(b_)}), length_scale=Parameter(t))
m._make()
o = m.kernel(x)
""", x=x, ell=s.num("ell", positive=True), t=s.num("t", positive=True))
    c.eq("value", s, e.o, Spec([b, n], lambda *i: closed(b_, X(*i) * nf.power(nf.sym("t"), -1))), "MuyGPS._make")
    nf.POSITIVE_SYMS.discard("dist")


@rule("C05", "deformation-anisotropic-matern", [(be, nu) for be in LOCAL for nu in ("0.5", "1.5", "2.5", "inf")],
      "Matern over an anisotropic l2 deformation")
def matern_aniso(c, backend, nu):
    s = S(backend)
    b, n = dim("b"), dim("n")
    x, X = s.inp("diff", b, n, n, const(2))
    P = lambda k: s.num(k, positive=True)
    e = s.run(KS + f"""
k = Matern(smoothness=Parameter({src_nu(nu)}), deformation=Anisotropy(l2, length_scale=VectorParameter(Parameter(e0), Parameter(e1))))
o = k(x)
p = k.get_opt_fn()(x, length_scale1=t1, length_scale0=t0)
""", x=x, e0=P("e0"), e1=P("e1"), t0=P("t0"), t1=P("t1"))
    d = lambda m: (lambda *i: nf.power(sum((nf.power(X(*i, const(j)) * nf.power(nf.sym(m + str(j)), -1), 2) for j in (0, 1)), ZERO), HALF))
    for lab, got, m in (("stored", e.o, "e"), ("trial", e.p, "t")):
        c.eq(lab, s, got, Spec([b, n, n], lambda *i: closed(nu, d(m)(*i))), "Matern.__call__")
