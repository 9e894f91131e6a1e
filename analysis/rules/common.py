"""Shared scenario text and specification functions."""
from .. import nf
from ..nf import ONE, ZERO, const, dim, lift
from ..check import rule
from ..scenario import *

BACKENDS = ("numpy", "torch", "jax", "mpi")
LOCAL = ("numpy", "torch", "jax")
NT = ("numpy", "torch")
HALF = nf.Fraction(1, 2)

SETUP = """
from MuyGPyS.gp import MuyGPS, MultivariateMuyGPS
from MuyGPyS.gp.kernels import RBF, Matern
from MuyGPyS.gp.deformation import Isotropy, Anisotropy, F2, l2
from MuyGPyS.gp.hyperparameter import Parameter, FixedScale, AnalyticScale, DownSampleScale, VectorParameter
from MuyGPyS.gp.noise import HomoscedasticNoise, HeteroscedasticNoise, NullNoise
"""

CASES = ("generic", "batch1", "one-neighbour", "one-response", "batch=neighbours", "responses=neighbours",
         "responses=batch", "all-equal", "all-one")


def sizes(case):
    b, n, r = dim("b"), dim("n"), dim("r")
    if case == "batch1":
        b = ONE
    elif case == "one-neighbour":
        n = ONE
    elif case == "one-response":
        r = ONE
    elif case == "batch=neighbours":
        n = b
    elif case == "responses=neighbours":
        r = n
    elif case == "responses=batch":
        r = b
    elif case == "all-equal":
        r = n = b
    elif case == "all-one":
        r = n = b = ONE
    else:
        assert case == "generic", case
    return b, n, r


def pinv(K, n, noise):
    """i -> index function of (K_i + diag noise_i)^-1;  noise(i, p)"""
    def at(*i):
        return inverse(n, lambda p, q: K(*i, p, q) + noise(*i, p) * nf.mkeq(p, q))
    return at


def mean_spec(K, k, Y, n, noise, *col):
    def val(*i):
        V = pinv(K, n, noise)(*i)
        return ssum(n, lambda p: ssum(n, lambda q: k(*i, p) * V(p, q) * Y(*i, q, *col)))
    return val


def quad_spec(K, k, n, noise):
    def val(*i):
        V = pinv(K, n, noise)(*i)
        return ssum(n, lambda p: ssum(n, lambda q: k(*i, p) * V(p, q) * k(*i, q)))
    return val


def noises(s, b, n):
    """noise models: name -> (source text of the model, environment, noise(i, p))"""
    eps = s.num("eps", positive=True)
    het, H = s.inp("het", b, n)
    return {
        "homoscedastic": ("HomoscedasticNoise(eps)", dict(eps=eps), lambda i, p: nf.sym("eps")),
        "heteroscedastic": ("HeteroscedasticNoise(het)", dict(het=het), H),
        "null": ("NullNoise()", {}, lambda i, p: ZERO),
    }
