"""C04: noise models."""
from .common import *


def noise_of(kind, s, b, n, three=None):
    if kind == "homoscedastic":
        return "HomoscedasticNoise(eps)", lambda i, a, p: nf.sym("eps")
    if kind == "shear":
        return "ShearNoise33(eps)", lambda i, a, p: nf.sym("eps") * (ONE + nf.mkeq(a, ZERO))
    raise KeyError(kind)


@rule("C04", "perturb", [(be, cs) for be in LOCAL for cs in ("generic", "batch1", "one-neighbour", "batch=neighbours")],
      "homoscedastic, heteroscedastic and null noise add exactly their variance to the diagonal of a (b,n,n) tensor")
def perturb(c, backend, case):
    s = S(backend)
    b, n, _ = sizes(case)
    Kin, K = s.inp("Kin", b, n, n, sym=(1, 2))
    het, H = s.inp("het", b, n)
    e = s.run(SETUP + """
hom = HomoscedasticNoise(eps)
o1 = hom.perturb(Kin)
o2 = hom.perturb(Kin, noise=trial)
o3 = hom.perturb_fn(ident)(Kin)
o4 = hom.perturb_fn(ident)(Kin, noise=trial)
h = HeteroscedasticNoise(het)
o5 = h.perturb(Kin)
o6 = h.perturb_fn(ident)(Kin)
o7 = NullNoise().perturb(Kin)
o8 = NullNoise().perturb_fn(ident)(Kin)
o9 = hom.perturb(Kin)
z1 = hom.perturb(Kin, noise=0.0)
z2 = hom.perturb_fn(ident)(Kin, noise=0.0)
z3 = HomoscedasticNoise(0.0).perturb(Kin)
""".replace("hom = ", "def ident(x, *a, **k):\n    return x\nhom = ", 1),
              Kin=Kin, het=het, eps=s.num("eps", positive=True), trial=s.num("trial", positive=True))
    d = lambda v: Spec([b, n, n], lambda i, p, q: K(i, p, q) + v(i, p) * nf.mkeq(p, q))
    own, tr, no = d(lambda i, p: nf.sym("eps")), d(lambda i, p: nf.sym("trial")), Spec([b, n, n], K)
    for lab, got, want in (("homoscedastic", e.o1, own), ("homoscedastic-trial", e.o2, tr), ("homoscedastic-wrapped", e.o3, own),
                           ("homoscedastic-wrapped-trial", e.o4, tr), ("heteroscedastic", e.o5, d(H)),
                           ("heteroscedastic-wrapped", e.o6, d(H)), ("null", e.o7, no), ("null-wrapped", e.o8, no),
                           ("homoscedastic-repeat", e.o9, own), ("zero-trial", e.z1, no),
                           ("zero-trial-wrapped", e.z2, no), ("zero", e.z3, no), ("input-unchanged", Kin, no), ("noise-unchanged", het, Spec([b, n], H))):
        c.eq(lab, s, got, want, "NoiseFn.perturb")


@rule("C04", "perturb-mpi", [("generic",)], "homoscedastic noise on one rank's chunk")
def perturb_mpi(c, case):
    s = S("mpi")
    b, n, _ = sizes(case)
    Kin, K = s.inp("Kin", b, n, n, sym=(1, 2))
    e = s.run(SETUP + "o = HomoscedasticNoise(eps).perturb(Kin)", Kin=Kin, eps=s.num("eps", positive=True))
    c.eq("homoscedastic", s, e.o, Spec([b, n, n], lambda i, p, q: K(i, p, q) + nf.sym("eps") * nf.mkeq(p, q)))


@rule("C04", "perturb-blocks", [(be, k, cs) for be in LOCAL for k in ("homoscedastic", "shear")
                                for cs in ("generic", "batch1", "one-neighbour", "batch=neighbours")],
      "noise on (b,3,n,3,n) tensors: the variance on the joint diagonal, twice the variance for the convergence block")
def perturb_blocks(c, backend, kind, case):
    s = S(backend)
    b, n, _ = sizes(case)
    three = const(3)
    Kin, K = s.inp("Kin", b, three, n, three, n)
    text, v = noise_of(kind, s, b, n)
    e = s.run(SETUP + f"""
from MuyGPyS.gp.noise import ShearNoise33
m = {text}
out = m.perturb(Kin)
""", Kin=Kin, eps=s.num("eps", positive=True))
    c.eq("value", s, e.out, Spec([b, three, n, three, n], lambda i, a, p, a2, q:
         K(i, a, p, a2, q) + v(i, a, p) * nf.mkeq(a, a2) * nf.mkeq(p, q)), "NoiseFn.perturb")
    c.eq("input-unchanged", s, Kin, Spec([b, three, n, three, n], K), "NoiseFn.perturb")


@rule("C04", "heteroscedastic-tensor", [(be,) for be in LOCAL], "make_heteroscedastic_tensor[i,j] == noise of neighbour (i,j)")
def het_tensor(c, backend):
    s = S(backend)
    b, n, _ = sizes("generic")
    mn, M = s.inp("mnoise", dim("N"))
    nn, NN = s.inp("nn", b, n, dt="int")
    f = s.get("MuyGPyS.gp.tensors", "make_heteroscedastic_tensor")
    c.eq("value", s, s.call(f, mn, nn), Spec([b, n], lambda i, j: M(NN(i, j))), "make_heteroscedastic_tensor")


@rule("C04", "negative-noise", [(be,) for be in NT], "HeteroscedasticNoise rejects negative variances, homoscedastic negative bounds")
def negative(c, backend):
    s = S(backend)
    c.raises("heteroscedastic", s, lambda: s.run(SETUP + "import numpy as np\nimport MuyGPyS._src.math as mm\n"
                                                 "HeteroscedasticNoise(mm.array([[0.1, -0.5], [0.2, 0.3]]))"), ("ValueError",))
    s = S(backend)
    c.raises("homoscedastic-bounds", s, lambda: s.run(SETUP + "HomoscedasticNoise(0.5, (-1.0, 1.0))"), ("ValueError",))
