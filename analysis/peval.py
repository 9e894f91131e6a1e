"""Separation of two normal forms by evaluation at random points (polynomial
identity testing of terms; no code under analysis is run).  Two terms whose
normal forms differ are only reported as different when a valuation of their
symbols is found at which their values differ."""
import cmath
import math
import random
import time
from fractions import Fraction

from . import nf


class Skip(Exception):
    """the sample is outside the domain of some operation"""


def tame(c):
    """very large and very small decimal constants are treated as parameters:
    moved to the size of the sampled values (same constant, same image)"""
    i = j = 0
    n, d = abs(c.numerator), c.denominator
    if max(n, d) < 100000:
        return c
    for x, sg in ((n, 1), (d, -1)):
        while x % 2 == 0 and x:
            x //= 2
            i += sg
        while x % 5 == 0 and x:
            x //= 5
            j += sg
    if i * j <= 0 or min(abs(i), abs(j)) < 5:
        return c
    return c / Fraction(2) ** i / Fraction(5) ** j * Fraction(6, 5) ** i * Fraction(7, 6) ** j


def guards(*polys):
    """the thresholds at which comparisons inside the terms change: sizes and
    (element) symbols compared with constants"""
    sizes, values = {}, {}
    seen = set()

    def note(p):
        c0, lin = 0, None
        for m, c in p.terms.items():
            if not m.factors and not m.bound:
                c0 = c
            elif lin is None and not m.bound and len(m.factors) == 1 and m.factors[0][1] == 1:
                lin = (m.factors[0][0], c)
            else:
                return
        if lin is None:
            return
        a, c = lin
        if a.kind == "dim":
            t = -c0 / c
            if abs(t) >= 5:
                sizes.setdefault(p.id, t)
        elif a.kind in ("sym", "el"):
            values.setdefault(a.args[0], set()).update({-c0 / c, -tame(c0) / tame(c) if c0 else Fraction(0)})

    def poly(p):
        if p.id in seen:
            return
        seen.add(p.id)
        for m in p.terms:
            for b in m.bound:
                poly(nf.ixsize(b))
            for a, _ in m.factors:
                atom(a)

    def atom(a):
        if ("a", a.id) in seen:
            return
        seen.add(("a", a.id))
        if a.kind in ("gt", "eq"):
            note(a.args[0])
        walk(a.args)

    def walk(x):
        if isinstance(x, nf.Poly):
            poly(x)
        elif hasattr(x, "params") and hasattr(x, "body"):
            for q in x.params:
                poly(nf.ixsize(q))
            poly(x.body)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)

    for p in polys:
        poly(p)
    return sizes, values


class Sample:
    def __init__(self, seed, positive, deadline, hints=None, wide=False):
        self.wide = wide
        self.hints = hints
        self.shift = {}
        self.rnd = random.Random(seed)
        self.seed = seed
        self.positive = positive
        self.dims = {}
        # index arrays hold values below the smallest size
        self.low = 3 if seed % 3 == 2 else 2
        if wide:
            self.low = 4
        self.pool = list(range(self.low, 14))
        head = self.pool[:4]
        self.rnd.shuffle(head)
        self.pool[:4] = head
        self.memo = {}
        self.deadline = deadline
        self.ticks = 0

    # -- pseudo random content ------------------------------------------------
    def hashed(self, key):
        return random.Random(repr((self.seed, key))).random()

    def value(self, name, idx):
        isint = name in nf.INT_ARRAYS
        u = self.hashed((name, idx))
        if isint:
            return int(u * (1 + int(self.hashed(("range", name)) * self.low) if self.wide else self.low))
        if self.wide == "few":
            return 1.0 if u < 0.6 else 2.0
        v = 0.5 + 1.5 * u
        ts = self.hints and self.hints[1].get(name)
        if ts and self.hashed(("guard", name, idx)) < 0.6:
            t = float(sorted(ts)[int(self.hashed(("which", name, idx)) * len(ts))])
            side = self.hashed(("side", name, idx))
            w = t if side < 0.3 else t * (0.3 + 0.4 * u) if side < 0.65 else t * (1.5 + u)
            if t and (w > 0 or not self.positive and name not in nf.POSITIVE_SYMS):
                return w
        if not self.positive and name not in nf.POSITIVE_SYMS and self.hashed(("sign", name, idx)) < 0.4:
            v = -v
        return v

    @staticmethod
    def key(v):
        if isinstance(v, complex):
            return (Sample.key(v.real), Sample.key(v.imag))
        if isinstance(v, int):
            return v
        if v == 0 or abs(v) < 1e-9:
            return 0
        if abs(v - round(v)) < 1e-9:
            return int(round(v))
        return float("%.6g" % v)

    # -- evaluation -------------------------------------------------------------
    def poly(self, p, env):
        k = (p.id, tuple(env[a] for a in sorted(p.ixs, key=lambda a: a.id)))
        r = self.memo.get(k)
        if r is not None:
            return r
        self.ticks += 1
        if self.ticks % 256 == 0 and time.time() > self.deadline:
            raise TimeoutError
        r = 0
        for m, c in p.terms.items():
            if self.hints:
                c = tame(c)
            r = r + self.mono(m, env) * (int(c) if c.denominator == 1 else float(c))
        if r != r or abs(r) > 1e200:
            raise Skip("overflow")
        self.memo[k] = r
        return r

    def mono(self, m, env):
        if not m.bound:
            return self.product(m, env)
        return self.loop(m, list(m.bound), dict(env))

    def loop(self, m, bound, env):
        # sizes of inner bounds may mention outer ones
        b = bound[0]
        n = self.size(nf.ixsize(b), env)
        r = 0
        for v in range(n):
            env[b] = v
            r = r + (self.loop(m, bound[1:], env) if len(bound) > 1 else self.product(m, env))
        del env[b]
        return r

    def size(self, p, env):
        try:
            n = self.poly(p, env)
        except KeyError:
            raise Skip("index size")
        if isinstance(n, float) and abs(n - round(n)) < 1e-9:
            n = int(round(n))
        if not isinstance(n, int) or n < 0 or n > 400:
            raise Skip("size")
        return n

    def product(self, m, env):
        r = 1
        # indicator factors first: a zero hides factors that need not be defined there
        for a, e in m.factors:
            if a.isbool:
                v = self.atom(a, env)
                if v == 0:
                    return 0
                r = r * v
        for a, e in m.factors:
            if a.isbool:
                continue
            v = self.atom(a, env)
            if e == 1:
                r = r * v
            elif e.denominator == 1:
                if v == 0 and e < 0:
                    raise Skip("division by zero")
                r = r * (v ** int(e) if e > 0 else 1.0 / v ** int(-e))
            else:
                if isinstance(v, complex) or v < 0 or v == 0 and e < 0:
                    raise Skip("fractional power")
                r = r * float(v) ** float(e)
        return r

    def real(self, v):
        if isinstance(v, complex):
            raise Skip("complex")
        return v

    def atom(self, a, env):
        k, ar = a.kind, a.args
        if k == "ix":
            return env[a]
        if k == "dim":
            d = self.dims.get(ar[0])
            if d is None:
                d = self.dims[ar[0]] = self.pool.pop(0)
            return d
        if k == "num":
            return float(ar[0])
        if k == "sym":
            if ar[0] in ("inf", "nan"):
                raise Skip("inf")
            if ar[0] == "pi":
                return math.pi
            return self.value(ar[0], ())
        if k == "el":
            idx = [self.key(self.poly(p, env)) for p in ar[1]]
            for g1, g2 in nf.SYMMETRIC.get(ar[0], ()):
                x, y = [idx[i] for i in g1], [idx[i] for i in g2]
                if y < x:
                    for i, j in zip(g1, g2):
                        idx[i], idx[j] = idx[j], idx[i]
            return self.value(ar[0], tuple(idx))
        if k == "poly":
            return self.poly(ar[0], env)
        if k == "exp":
            v = self.poly(ar[0], env)
            if abs(v) > 300:
                raise Skip("exp")
            return math.exp(self.real(v))
        if k == "delta":
            return int(abs(self.poly(ar[0], env) - self.poly(ar[1], env)) < 1e-9)
        if k == "eq":
            return int(abs(self.guard(ar[0], env)) < 1e-9)
        if k == "gt":
            v = self.real(self.guard(ar[0], env))
            if 0 < abs(v) < 1e-9:
                raise Skip("tie")
            return int(v > 0)
        if k == "bool":
            if ar[0] == "any" and not ar[1] and len(ar[2]) == 1:
                return int(any(abs(v) > 1e-9 for v in self.content(ar[2][0], env)))
            key = (ar[0], tuple(self.key(self.poly(p, env)) for p in ar[1]), tuple(self.table(l, env) for l in ar[2]))
            return int(self.hashed(key) < 0.5)
        if k == "fn":
            return self.fn(ar[0], [self.poly(p, env) for p in ar[1:]])
        if k == "op":
            return self.op(ar, env)
        raise Skip(k)

    def guard(self, p, env):
        """thresholds on sizes are moved into the range of the sampled sizes"""
        t = self.hints and self.hints[0].get(p.id)
        if not t:
            return self.poly(p, env)
        for t0, d in self.shift.items():
            if abs(t - t0) <= 2:
                break
        else:
            d = self.shift[t] = round(t) - 2 - int(self.hashed(("shift", t)) * 4)
        (a, c), = [(m.factors[0][0], c) for m, c in p.terms.items() if m.factors]
        return c * (self.atom(a, env) - (t - d))

    def fn(self, name, v):
        x = self.real(v[0]) if v else 0
        if name == "log":
            if x <= 0:
                raise Skip("log")
            return math.log(x)
        if name == "abs":
            return abs(x)
        if name == "floor":
            return math.floor(x + 1e-9)
        if name == "int":
            return int(x + math.copysign(1e-9, x))
        if name in ("mod", "floordiv"):
            y = self.real(v[1])
            if y == 0:
                raise Skip("mod")
            q = math.floor(x / y + 1e-9)
            return q if name == "floordiv" else x - y * q
        if name == "maximum":
            return max(x, self.real(v[1]))
        if name == "minimum":
            return min(x, self.real(v[1]))
        if name in ("tanh", "tan", "erf", "sin", "cos", "arctan2", "atan2"):
            return getattr(math, {"arctan2": "atan2"}.get(name, name))(*v)
        if name == "gamma":
            if x <= 0:
                raise Skip("gamma")
            return math.gamma(x)
        if name == "rint":
            return round(x)
        if name == "pow":
            if x <= 0:
                raise Skip("pow")
            return x ** self.real(v[1])
        key = [self.key(q) for q in v]
        if name in ("and_", "or_"):
            key.sort()
        return 0.5 + self.hashed(("fn", name, tuple(key)))

    def table(self, lam, env):
        """fingerprint of the content of an array valued argument"""
        k = ("table", lam, tuple(env[a] for a in sorted(lam.ixs, key=lambda a: a.id)))
        r = self.memo.get(k)
        if r is None:
            cells = []
            self.cells(lam, 0, dict(env), cells)
            r = self.memo[k] = tuple(self.key(c) for c in cells)
        return r

    def content(self, lam, env):
        k = ("cells", lam, tuple(env[a] for a in sorted(lam.ixs, key=lambda a: a.id)))
        r = self.memo.get(k)
        if r is None:
            out = []
            self.cells(lam, 0, dict(env), out)
            r = self.memo[k] = tuple(self.real(v) for v in out)
        return r

    def reduced(self, name, static, lam, idxs, env):
        """the array operations with a definite meaning; None: treated as arbitrary"""
        if name in ("max", "min", "argmax", "argmin", "prod", "median") and not idxs:
            v = self.content(lam, env)
            if not v:
                raise Skip("empty")
            if name == "prod":
                return math.prod(v)
            if name == "median":
                w, h = sorted(v), len(v) // 2
                return w[h] if len(v) % 2 else (w[h - 1] + w[h]) / 2
            m = max(v) if name in ("max", "argmax") else min(v)
            if name in ("max", "min"):
                return m
            near = [i for i, x in enumerate(v) if abs(x - m) <= 1e-9 * max(1, abs(m))]
            return near[0]
        if name == "nnz" and static == ("unique",) and not idxs:
            return len({self.key(x) for x in self.content(lam, env)})
        if name in ("unique", "sort") and not static and len(idxs) == 1:
            v = sorted(self.content(lam, env))
            if name == "unique":
                v = [x for i, x in enumerate(v) if not i or self.key(x) != self.key(v[i - 1])]
            t = int(round(self.real(self.poly(idxs[0], env))))
            if not 0 <= t < len(v):
                raise Skip("index")
            return v[t]
        if name == "where" and len(idxs) == 1 and static == (0,) and len(lam.params) == 1:
            v = self.content(lam, env)
            t = int(round(self.real(self.poly(idxs[0], env))))
            hits = [i for i, x in enumerate(v) if abs(x) > 1e-9]
            if not 0 <= t < len(hits):
                raise Skip("index")
            return hits[t]
        return None

    def cells(self, lam, k, env, out):
        if k == len(lam.params):
            out.append(self.poly(lam.body, env))
            return
        p = lam.params[k]
        for v in range(self.size(nf.ixsize(p), env)):
            env[p] = v
            self.cells(lam, k + 1, env, out)
        del env[p]

    def op(self, ar, env):
        name, static, lams, idxs = ar
        if name in ("inv", "logdet"):
            lam = lams[0]
            k = ("matrix", name, lam, tuple(env[a] for a in sorted(lam.ixs, key=lambda a: a.id)))
            r = self.memo.get(k)
            if r is None:
                h = len(lam.params) // 2
                shape = [self.size(nf.ixsize(p), env) for p in lam.params]
                n = math.prod(shape[:h])
                if n != math.prod(shape[h:]) or n > 40:
                    raise Skip("matrix")
                flat = []
                self.cells(lam, 0, dict(env), flat)
                m = [flat[i * n:(i + 1) * n] for i in range(n)]
                r = self.memo[k] = (solve(m), shape)
            (inverse, det), shape = r
            if name == "logdet":
                return math.log(abs(det))
            h = len(shape) // 2
            ij = [self.poly(p, env) for p in idxs]
            pos = [0, 0]
            for t, v in enumerate(ij):
                pos[t >= h] = pos[t >= h] * shape[t] + int(round(v))
            try:
                return inverse[pos[0]][pos[1]]
            except IndexError:
                raise Skip("index")
        if len(lams) == 1:
            r = self.reduced(name, static, lams[0], idxs, env)
            if r is not None:
                return r
        key = (name, static, tuple(self.table(l, env) for l in lams), tuple(self.key(self.poly(p, env)) for p in idxs))
        u = self.hashed(key)
        if name in nf.INT_OPS:
            return int(u * self.low)
        return 0.5 + 1.5 * u


def solve(m):
    n = len(m)
    a = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(m)]
    det = 1.0
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        if abs(a[p][i]) < 1e-6:
            raise Skip("singular")
        if p != i:
            a[i], a[p] = a[p], a[i]
            det = -det
        det *= a[i][i]
        f = 1.0 / a[i][i]
        a[i] = [x * f for x in a[i]]
        for r in range(n):
            if r != i and a[r][i]:
                g = a[r][i]
                a[r] = [x - g * y for x, y in zip(a[r], a[i])]
    return [r[n:] for r in a], det


def separate(p, q, facts=(), seconds=6.0, samples=8):
    """True: p != q at some valuation; False: equal at every valuation tried
    (at least two); None: nothing could be evaluated"""
    deadline = time.time() + seconds
    r = sampled(p, q, facts, deadline, samples, None)
    if r is False:
        hints = guards(p, q)
        if (hints[0] or hints[1]) and sampled(p, q, facts, time.time() + seconds, 20 * samples, hints):
            return True
        if nf.INT_ARRAYS & names(p, q) and sampled(p, q, facts, time.time() + seconds, 12 * samples, None, True):
            return True
        if COARSE and any(a.kind == "eq" for x in (p, q) for a in nf.atoms_of(x)):
            return sampled(p, q, facts, time.time() + seconds, 40 * samples, None, "few") or r
    return r


# also try contents drawn from two values, so that different arrays agree in places
COARSE = False


def names(*polys):
    return {a.args[0] for p in polys for a in nf.atoms_of(p) if a.kind in ("sym", "el")}


def sampled(p, q, facts, deadline, samples, hints, wide=False):
    ixs = sorted(p.ixs | q.ixs, key=lambda a: a.id)
    seen = 0
    for seed in range(samples * 3):
        if seen >= samples:
            break
        s = Sample(seed, seed % 2 == 0, deadline, hints, wide)
        try:
            env = {}
            for a in ixs:
                env[a] = 0
            sizes = [s.size(nf.ixsize(a), env) for a in ixs]
            for a, v in facts:
                if a.ixs or not (a.kind == "gt" or a.kind in ("eq", "delta") and not v):
                    continue
                if int(bool(s.atom(a, env))) != v:
                    raise Skip("fact")
            if any(n == 0 for n in sizes):
                continue
            points = math.prod(sizes)
            todo = range(points) if points <= 40 else sorted(s.rnd.sample(range(points), 40))
            for t in todo:
                for a, n in zip(ixs, sizes):
                    t, env[a] = divmod(t, n)
                x, y = s.poly(p, env), s.poly(q, env)
                if abs(x - y) > 1e-6 * max(abs(x), abs(y), 1e-3):
                    return True
            seen += 1
        except Skip:
            continue
        except (TimeoutError, ZeroDivisionError, OverflowError, ValueError, KeyError, RecursionError):
            if time.time() > deadline:
                break
            continue
    return False if seen >= 2 else None
