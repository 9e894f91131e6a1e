"""Normal form for value numbers.

Every numeric value the analyser tracks is a polynomial with rational
coefficients over *atoms* (uninterpreted elements of input arrays, elementwise
functions, linear algebra operators, indicators), where each monomial may bind
summation indices.  The constructors below keep every polynomial in one
canonical form (alpha-renamed summation indices, Kronecker deltas eliminated,
exponentials merged, idempotent indicators), so that two expressions that
denote the same function by ring laws, index renaming, contraction order,
transposition of a symmetric operator and branch merging receive the *same*
interned object.  Equality of value numbers is therefore object equality.
No search, no solver, no evaluation on concrete data.
"""
from fractions import Fraction
from itertools import permutations
from math import gcd

F0, F1 = Fraction(0), Fraction(1)


class Overflow(Exception):
    """The normal form grew beyond its budget: the value becomes unknown."""


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("kind", "args", "id", "height", "isbool", "ixs", "_size")
    table = {}

    def __new__(cls, kind, args):
        key = (kind, args)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args = kind, args
            a.id = len(cls.table)
            cls.table[key] = a
            h, ixs, sz = 0, set(), 1
            if kind == "ix":
                ixs.add(a)
            else:
                for p in _children(args):
                    if p.height > h:
                        h = p.height
                    ixs |= p.ixs
                    sz += p.size
            a.height = h
            a.ixs = frozenset(ixs)
            a._size = sz
            if sz > 60000:
                raise Overflow("term too large")
            a.isbool = kind in ("delta", "gt", "eq", "bool")
        return a

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def _children(x):
    if isinstance(x, (Poly, Lam)):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _children(y)


class Lam:
    """An array-valued argument: params are bound indices."""

    __slots__ = ("params", "body", "height", "ixs", "size", "_h")
    table = {}

    def __new__(cls, params, body):
        key = (params, body)
        l = cls.table.get(key)
        if l is None:
            l = object.__new__(cls)
            l.params, l.body = params, body
            l.height = max([body.height] + [p.args[0][1] for p in params])
            l.ixs = body.ixs - frozenset(params)
            l.size = body.size + 1
            cls.table[key] = l
        return l

    def open(self):
        temps = tuple(tmp(ixsize(p)) for p in self.params)
        m = {p: atom(t) for p, t in zip(self.params, temps)}
        return temps, subst(self.body, m)


class Poly:
    __slots__ = ("terms", "height", "ixs", "size", "id")
    table = {}

    def __new__(cls, terms):
        """terms: dict mono -> Fraction (no zero)."""
        key = frozenset(terms.items())
        p = cls.table.get(key)
        if p is None:
            p = object.__new__(cls)
            p.terms = terms
            h, ixs, sz = 0, set(), 0
            for m in terms:
                if m.height > h:
                    h = m.height
                ixs |= m.ixs
                sz += m.size
            p.height, p.ixs, p.size = h, frozenset(ixs), sz
            p.id = len(cls.table)
            if len(terms) > 4000 or sz > 60000:
                raise Overflow("polynomial too large")
            cls.table[key] = p
        return p

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        d = dict(self.terms)
        for m, c in o.terms.items():
            v = d.get(m, F0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def scale(self, c):
        if c == 1:
            return self
        if not c:
            return ZERO
        return Poly({m: v * c for m, v in self.terms.items()})

    def const(self):
        """Fraction if constant else None."""
        if not self.terms:
            return F0
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if m is M1:
                return c
        return None

    def single(self):
        """the atom if this is exactly one atom, else None"""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and not m.bound and len(m.factors) == 1:
                a, e = m.factors[0]
                if e == 1:
                    return a
        return None

    def __repr__(self):
        return show(self)


class Mono:
    __slots__ = ("bound", "factors", "height", "ixs", "size", "id")
    table = {}

    def __new__(cls, bound, factors):
        key = (bound, factors)
        m = cls.table.get(key)
        if m is None:
            m = object.__new__(cls)
            m.bound, m.factors = bound, factors
            h, ixs, sz = 0, set(), 1
            for a, _ in factors:
                if a.height > h:
                    h = a.height
                ixs |= a.ixs
                sz += a._size
            for b in bound:
                h = max(h, b.args[0][1])
                for q in _children(b.args):
                    ixs |= q.ixs
            m.height = h
            m.ixs = frozenset(ixs) - frozenset(bound)
            m.size = sz
            m.id = len(cls.table)
            cls.table[key] = m
        return m


M1 = Mono((), ())
ZERO = Poly({})
ONE = Poly({M1: F1})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(x)
    raise TypeError(f"cannot lift {x!r}")


def const(c):
    if isinstance(c, float):
        if c != c:
            return atom(Atom("sym", ("nan",)))
        if c in (float("inf"), float("-inf")):
            a = atom(Atom("sym", ("inf",)))
            return a if c > 0 else -a
        c = Fraction(repr(c)) if abs(c) < 1e300 else Fraction(c)
    c = Fraction(c)
    return Poly({M1: c}) if c else ZERO


def atom(a):
    return Poly({Mono((), ((a, F1),)): F1})


def sym(name):
    return atom(Atom("sym", (name,)))


# sizes assumed different because they are named differently: pairs (size, size or number), filled by
# comparisons the analysed program makes; each is examined again with ALIAS making the two equal
ASSUMED = set()
ALIAS = {}


def dim(name):
    v = ALIAS.get(name)
    return atom(Atom("dim", (name,))) if v is None else v if isinstance(v, Poly) else dim(v)


def assume_sizes(p, q):
    """the program asked whether two sizes are equal"""
    d = p - q
    if d.const() is not None or len(d.terms) > 2 or not generic_dims(d):
        return
    names, num = [], 0
    for m, c in d.terms.items():
        if not m.factors:
            num = c
        elif len(m.factors) == 1 and m.factors[0][1] == 1 and abs(c) == 1:
            names.append((m.factors[0][0].args[0], c))
        else:
            return
    if len(names) == 2 and not num and names[0][1] == -names[1][1]:
        ASSUMED.add(tuple(sorted(n for n, _ in names)))
    elif len(names) == 1:
        v = -num / names[0][1]
        if v.denominator == 1 and v >= 1:
            ASSUMED.add((names[0][0], int(v)))


# indices --------------------------------------------------------------------
_ctr = [0]


def ix(tag, size):
    """tag is a tuple (kind, height, n...)"""
    return Atom("ix", (tag, size))


def ixsize(a):
    return a.args[1]


def tmp(size):
    _ctr[0] += 1
    return ix(("t", 0, _ctr[0]), size)


def free(axis, j, size):
    return ix(("f", 0, axis, j), size)


# --------------------------------------------------------------------------
# multiplication and term canonicalisation
# --------------------------------------------------------------------------
_mulcache = {}


def mul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    c = p.const()
    if c is not None:
        return q.scale(c)
    c = q.const()
    if c is not None:
        return p.scale(c)
    key = (p, q) if p.id <= q.id else (q, p)
    r = _mulcache.get(key)
    if r is not None:
        return r
    if len(p.terms) * len(q.terms) > 6000:
        raise Overflow("product too large")
    out = {}
    for m1, c1 in p.terms.items():
        for m2, c2 in q.terms.items():
            _acc(out, mulmono(m1, m2), c1 * c2)
    r = Poly(out)
    _mulcache[key] = r
    return r


def _acc(out, poly, c):
    for m, v in poly.terms.items():
        w = out.get(m, F0) + v * c
        if w:
            out[m] = w
        else:
            out.pop(m, None)


def openmono(m):
    if not m.bound:
        return (), m.factors
    temps = []
    mp = {}
    for b in m.bound:
        t = tmp(ixsize(b))
        temps.append(t)
        mp[b] = atom(t)
    facs = []
    extra = ONE
    for a, e in m.factors:
        if a.ixs & mp.keys():
            p = subst_atom(a, mp)
            s = p.single()
            if s is not None:
                facs.append((s, e))
            elif a.kind == "poly" and len(p.terms) > 1:
                facs.append((Atom("poly", (p,)), e))   # renormalised when the indices are closed again
            else:
                extra = extra * power(p, e)
        else:
            facs.append((a, e))
    if extra is not ONE:
        raise Overflow("open produced non-atomic factor")
    return tuple(temps), tuple(facs)


_mmcache = {}


def mulmono(m1, m2):
    if m1 is M1:
        return Poly({m2: F1})
    if m2 is M1:
        return Poly({m1: F1})
    key = (m1, m2) if m1.id <= m2.id else (m2, m1)
    r = _mmcache.get(key)
    if r is None:
        b1, f1 = openmono(m1)
        b2, f2 = openmono(m2)
        r = build(b1 + b2, f1 + f2)
        _mmcache[key] = r
    return r


def build(bound, factors, coef=F1):
    """Canonical polynomial for  coef * SUM_bound PROD factors.

    bound: temp index atoms (symbolic size); factors: (Atom, exponent) list.
    """
    d = {}
    expo = ZERO
    rest = ONE  # extra polynomial multiplier produced by simplification
    for a, e in factors:
        if a.kind == "exp":
            expo = expo + a.args[0].scale(e)
            continue
        d[a] = d.get(a, F0) + e
    nums = {}
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.isbool:
            if e > 0:
                d[a] = F1
            else:
                pass
        if a.kind == "num":
            k = int(e // 1)
            if k:
                coef = coef * Fraction(a.args[0]) ** k
                e -= k
            if e:
                d[a] = e
            else:
                del d[a]
        elif a.kind == "poly" and e.denominator == 1 and 0 < e <= 4:
            del d[a]
            rest = rest * power(a.args[0], e)
    if expo is not ZERO:
        ex = mkexp(expo)
        if len(ex.terms) == 1:
            (m, c), = ex.terms.items()
            if not m.bound:
                coef *= c
                for a, e in m.factors:
                    d[a] = d.get(a, F0) + e
                    if d[a] == 0:
                        del d[a]
                    elif a.kind == "num" and d[a].denominator == 1:
                        coef *= Fraction(a.args[0]) ** int(d.pop(a))
            else:
                rest = rest * ex
        else:
            rest = rest * ex
    if rest is not ONE:
        bs = tuple(bound)
        r = mul(build((), tuple(d.items()), coef), rest)
        for b in bs:
            r = sum_over(r, b)
        return r
    # complementary indicators / deltas
    for a in list(d):
        if a.kind == "delta" and a in d:
            p, q = a.args
            for x, y in ((p, q), (q, p)):
                s = x.single()
                if s is not None and s.kind == "ix" and s not in y.ixs:
                    isb = s in bound
                    ys = y.single()
                    if not isb:
                        # free index: replace in the other factors, keep delta
                        if ys is not None and ys.kind == "ix":
                            if ys in bound:
                                continue
                            if ys.id > s.id:
                                continue
                        others = [(b, e) for b, e in d.items() if b is not a]
                        if not any(s in b.ixs for b, _ in others):
                            continue
                        r = const(coef) * atom(a)
                        for b, e in others:
                            r = r * power(subst_atom(b, {s: y}), e) if s in b.ixs else r * power(atom(b), e)
                        for b in bound:
                            r = sum_over(r, b)
                        return r
                    others = [(b, e) for b, e in d.items() if b is not a]
                    # summing out s: needs 0 <= y < size(s)
                    if not _inrange(y, ixsize(s)):
                        continue
                    r = const(coef)
                    for b, e in others:
                        r = r * (power(subst_atom(b, {s: y}), e) if s in b.ixs else power(atom(b), e))
                    for b in bound:
                        if b is not s:
                            r = sum_over(r, b)
                    return r
    gts = [a for a in d if a.kind == "gt"]
    if len(gts) > 1:
        for i, a in enumerate(gts):
            for b in gts[i + 1:]:
                rel = _gtrel(a.args[0], b.args[0])
                if rel == 0:
                    return ZERO
                if rel is not None:
                    d.pop(b if rel > 0 else a, None)
                    return build(bound, tuple(d.items()), coef)
    # unused bound
    nb = []
    extra = ONE
    for b in bound:
        if any(b in a.ixs for a in d):
            nb.append(b)
        else:
            extra = extra * ixsize(b)
    if extra is not ONE:
        return mul(build(tuple(nb), tuple(d.items()), coef), extra)
    if not nb:
        fs = tuple(sorted(d.items(), key=lambda t: t[0].id))
        return Poly({Mono((), fs): coef}) if coef else ZERO
    # group: alpha canonicalisation
    if len(nb) > 6:
        raise Overflow("too many summation indices")
    h = 1 + max(a.height for a in d)
    best = None
    # only permute indices of equal size; try all assignments, keep smallest
    nb = tuple(nb)
    for perm in permutations(range(len(nb))):
        mp = {}
        names = []
        for k, i in enumerate(perm):
            n = ix(("s", h, k), ixsize(nb[i]))
            mp[nb[i]] = atom(n)
            names.append(n)
        facs = {}
        ok = True
        co = coef
        for a, e in d.items():
            if a.ixs & mp.keys():
                p = subst_atom(a, mp)
                if a.kind == "poly":
                    p, x = power(p, e), F1
                else:
                    x = e
                if len(p.terms) != 1:
                    ok = False
                    break
                (m, c), = p.terms.items()
                if m.bound or x != 1 and (c != 1 or len(m.factors) != 1 or m.factors[0][1] != 1):
                    ok = False
                    break
                co = co * c
                for g, k in m.factors:
                    facs[g] = facs.get(g, F0) + k * x
            else:
                facs[a] = facs.get(a, F0) + e
        if not ok:
            raise Overflow("renaming produced non-atomic factor")
        fs = tuple(sorted(((g, k) for g, k in facs.items() if k), key=lambda t: t[0].id))
        cand = (tuple(names), fs, co)
        ck = (tuple((a.id, e) for a, e in fs), tuple(n.id for n in names))
        if best is None or ck < best[0]:
            best = (ck, cand)
    return Poly({Mono(best[1][0], best[1][1]): best[1][2]})


def _gtrel(p, q):
    """0: p>0 and q>0 contradict; 1: p>0 implies q>0; -1: converse; None"""
    for m, c in p.terms.items():
        if m is M1:
            continue
        e = q.terms.get(m)
        if e is None:
            return None
        t = -c / e
        if t > 0:
            r = (p + q.scale(t)).const()
            return 0 if r is not None and r <= 0 else None
        r = (q.scale(-t) - p).const()
        if r is None:
            return None
        return 1 if r >= 0 else -1
    return None


def _inrange(y, size):
    lo = lower(y)
    if lo is None or lo < 0:
        # data dependent indices are assumed to be valid indices
        if any(a.kind in ("el", "op") for m in y.terms for a, _ in m.factors):
            return True
        return False
    d = size - 1 - y
    lo = lower(d)
    if lo is not None and lo >= 0:
        return True
    return any(a.kind in ("el", "op") for m in y.terms for a, _ in m.factors)


# --------------------------------------------------------------------------
# sums
# --------------------------------------------------------------------------
def sum_over(p, b):
    """Sum polynomial p over temp/free index atom b (0 <= b < size)."""
    size = ixsize(b)
    c = size.const()
    if c is not None and c <= 12:
        r = ZERO
        for k in range(int(c)):
            r = r + subst(p, {b: const(k)})
        return r
    out = ZERO
    for m, co in p.terms.items():
        if b not in m.ixs:
            out = out + Poly({m: co}) * size
        else:
            if _counts(size):
                r = unfilter(Poly({m: co}), b, size)
                if r is not None:
                    t, q = r
                    out = out + sum_over(q, t)
                    continue
            bs, fs = openmono(m)
            out = out + build(bs + (b,), fs, co)
    return out


def _counts(size):
    """may size be the number of entries that pass a filter?"""
    return any(m.bound for m in size.terms)


def unfilter(p, b, size, lam=None):
    """p depends on the filtered position b only through the b-th entry that passes a filter:
    (t, filter(t) * p in terms of the unfiltered position t), else None"""
    lams = [lam] if lam is not None else {
        a.args[2][0]: 1 for a in atoms_of(p) if a.kind == "op" and a.args[0] == "where" and b in a.ixs}
    for l in lams:
        if len(l.params) != 1 or b in l.ixs:
            continue
        (u,), body = l.open()
        if sum_over(body, u) is not size:
            continue
        w = mkop("where", (0,), (l,), (atom(b),)).single()
        t = tmp(ixsize(u))
        q = map_atoms(p, lambda a: atom(t) if a is w else None)
        if b not in q.ixs:
            return t, subst(body, {u: atom(t)}) * q
    return None


# --------------------------------------------------------------------------
# powers and elementary functions
# --------------------------------------------------------------------------
def _primes(n):
    out = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def numpow(c, e):
    """c ** e for rationals"""
    if e.denominator == 1:
        return const(Fraction(c) ** int(e)) if c or e >= 0 else atom(Atom("fn", ("pow", const(c), const(e))))
    if c < 0:
        return atom(Atom("fn", ("pow", const(c), const(e))))
    if c == 0:
        return ZERO if e > 0 else atom(Atom("fn", ("pow", const(c), const(e))))
    r = {}
    co = F1
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in _primes(n).items():
            ee = e * k * s
            i = ee.numerator // ee.denominator
            co *= Fraction(pr) ** i
            ee -= i
            if ee:
                r[pr] = r.get(pr, F0) + ee
    fs = []
    for pr, ee in r.items():
        fs.append((Atom("num", (pr,)), ee))
    return build((), tuple(fs), co)


POSITIVE_SYMS = set()


def nonneg_atom(a):
    if a.kind in ("exp", "num", "dim", "ix") or a.isbool:
        return True
    if a.kind == "sym":
        return a.args[0] in POSITIVE_SYMS
    if a.kind == "el":
        return a.args[0] in POSITIVE_SYMS
    if a.kind == "poly":
        return True  # even-power base is normalised as a positive quantity
    if a.kind == "fn" and a.args[0] in ("abs", "gamma"):
        return True
    return False


def power(p, e):
    e = Fraction(e)
    if e == 1:
        return p
    if e == 0:
        return ONE
    c = p.const()
    if c is not None:
        return numpow(c, e)
    if len(p.terms) == 1:
        (m, co), = p.terms.items()
        if not m.bound:
            r = numpow(co, e)
            if co < 0 and e.denominator != 1:
                return _polypow(p, e)
            facs = []
            for a, k in m.factors:
                if a.isbool:
                    if e > 0:
                        facs.append((a, F1))
                        continue
                    return _polypow(p, e)
                ne = k * e
                if e.denominator != 1 and k.denominator == 1 and k % 2 == 0 and not nonneg_atom(a):
                    ab = mkfn("abs", atom(a))
                    s = ab.single()
                    if s is None:
                        return _polypow(p, e)
                    facs.append((s, ne))
                else:
                    facs.append((a, ne))
            return mul(r, build((), tuple(facs)))
        if e.denominator == 1 and 0 < e <= 4:
            r = p
            for _ in range(int(e) - 1):
                r = r * p
            return r
        return _polypow(p, e)
    bs = _bools(p)
    if bs and len(bs) <= 4:
        return shannon(p, bs, lambda q: power(q, e))
    if e.denominator == 1 and 0 < e <= 4 and len(p.terms) ** int(e) <= 3000:
        r = p
        for _ in range(int(e) - 1):
            r = r * p
        return r
    return _polypow(p, e)


def _polypow(p, e):
    """p multi-term (or bound).  Extract content, make an opaque base."""
    coef = F1
    g = None
    for m, c in p.terms.items():
        g = c if g is None else Fraction(
            gcd(g.numerator * c.denominator, c.numerator * g.denominator),
            g.denominator * c.denominator)
    g = abs(g) if g else F1
    lead = min(p.terms, key=lambda m: m.id)
    if p.terms[lead] < 0 and e.denominator == 1:
        g = -g
    common = None
    for m in p.terms:
        fs = {a: k for a, k in m.factors if not (a.ixs & frozenset(m.bound)) and not a.isbool and a.kind != "exp"}
        if common is None:
            common = fs
        else:
            common = {a: min(k, fs[a]) for a, k in common.items() if a in fs}
        if not common:
            break
    common = {a: k for a, k in (common or {}).items() if k and (e.denominator == 1 or nonneg_atom(a))}
    q = p.scale(1 / g)
    if common:
        q = ZERO
        for m, c in p.terms.items():
            fs = dict(m.factors)
            for a, k in common.items():
                fs[a] = fs.get(a, F0) - k
            q = q + build(m.bound, tuple((a, k) for a, k in fs.items() if k), c / g)
        r = numpow(g, e)
        t = power(q, e)
        if len(t.terms) == 1 and not next(iter(t.terms)).bound:
            (m, c), = t.terms.items()
            fs = dict(m.factors)
            for a, k in common.items():
                fs[a] = fs.get(a, F0) + k * e
            return r * build((), tuple((a, k) for a, k in fs.items() if k), c)
        return r * build((), tuple((a, k * e) for a, k in common.items())) * t
    r = numpow(g, e) if g != 1 else ONE
    if g < 0 and e.denominator != 1:
        r, q = ONE, p
    s = q.single()
    if s is not None:
        return r * build((), ((s, e),))
    return r * build((), ((Atom("poly", (q,)), e),)) if not (e.denominator == 1 and 0 < e <= 4) else r * Poly({Mono((), ((Atom("poly", (q,)), e),)): F1})


def _bools(p):
    """indicator atoms that occur as factors of the terms of p"""
    out = []
    for m in p.terms:
        for a, _ in m.factors:
            if a.isbool and not (a.ixs & frozenset(m.bound)) and a not in out:
                out.append(a)
    return sorted(out, key=lambda a: a.id)


def shannon(p, bs, f):
    if not bs:
        return f(p)
    a = bs[0]
    p1, p0 = cofactor(p, a, 1), cofactor(p, a, 0)
    if p1 is p0:
        return shannon(p1, bs[1:], f)
    r1 = shannon(p1, [b for b in bs[1:] if b in _bools(p1)], f)
    r0 = shannon(p0, [b for b in bs[1:] if b in _bools(p0)], f)
    A = atom(a)
    return A * r1 + (ONE - A) * r0


def cofactor(p, a, v):
    out = ZERO
    for m, c in p.terms.items():
        es = dict(m.factors)
        if a in es:
            if v:
                b, fs = openmono(m)
                es = [(x, e) for x, e in fs if x is not a]
                out = out + build(b, tuple(es), c)
        else:
            out = out + Poly({m: c})
    return out


def mkexp(p):
    if p is ZERO:
        return ONE
    bs = _bools(p)
    if bs and len(bs) <= 4:
        return shannon(p, bs, mkexp)
    r = ONE
    rest = {}
    for m, c in p.terms.items():
        if not m.bound and len(m.factors) == 1:
            a, e = m.factors[0]
            if e == 1 and a.kind == "fn" and a.args[0] == "log":
                r = r * power(a.args[1], c)
                continue
        rest[m] = c
    q = Poly(rest)
    if q is ZERO:
        return r
    return r * Poly({Mono((), ((Atom("exp", (q,)), F1),)): F1})


def mklog(p):
    c = p.const()
    if c is not None and c > 0:
        if c == 1:
            return ZERO
        r = ZERO
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in _primes(n).items():
                r = r + const(s * k) * atom(Atom("fn", ("log", const(pr))))
        return r
    bs = _bools(p)
    if bs and len(bs) <= 4:
        return shannon(p, bs, mklog)
    if len(p.terms) == 1:
        (m, co), = p.terms.items()
        if not m.bound and co > 0 and (len(m.factors) > 1 or co != 1 or m.factors[0][1] != 1 or m.factors[0][0].kind == "exp"):
            r = mklog(const(co))
            for a, e in m.factors:
                if a.kind == "exp":
                    r = r + a.args[0].scale(e)
                elif a.kind == "poly":
                    r = r + mklog(a.args[0]).scale(e)
                elif a.kind == "num":
                    r = r + mklog(const(a.args[0])).scale(e)
                else:
                    r = r + atom(Atom("fn", ("log", atom(a)))).scale(e)
            return r
        return atom(Atom("fn", ("log", p)))
    # pull content out through the power normaliser
    q = _polypow(p, Fraction(-1))
    if len(q.terms) == 1:
        (m, co), = q.terms.items()
        if co > 0 and (co != 1 or len(m.factors) > 1):
            r = -mklog(const(co))
            for a, e in m.factors:
                if a.kind == "poly":
                    r = r - atom(Atom("fn", ("log", a.args[0]))).scale(e)
                elif a.kind == "exp":
                    r = r - a.args[0].scale(e)
                else:
                    r = r - atom(Atom("fn", ("log", atom(a)))).scale(e)
            return r
    return atom(Atom("fn", ("log", p)))


COMMUT = {"maximum", "minimum", "and_", "or_"}


def mkfn(op, *args):
    """elementwise function application"""
    args = tuple(lift(a) for a in args)
    if op == "exp":
        return mkexp(args[0])
    if op == "log":
        return mklog(args[0])
    if op == "sqrt":
        return power(args[0], Fraction(1, 2))
    if op == "abs":
        p = args[0]
        c = p.const()
        if c is not None:
            return const(abs(c))
        bs = _bools(p)
        if bs and len(bs) <= 4:
            return shannon(p, bs, lambda q: mkfn("abs", q))
        if len(p.terms) == 1:
            (m, co), = p.terms.items()
            if not m.bound and (len(m.factors) > 1 or co != 1 or m.factors[0][1] != 1):
                r = const(abs(co))
                for a, e in m.factors:
                    r = r * power(mkfn("abs", atom(a)), e)
                return r
            s = p.single()
            if s is not None and nonneg_atom(s):
                return p
            if s is not None and s.kind == "fn" and s.args[0] == "abs":
                return p
        else:
            lo = lower(p)
            if lo is not None and lo >= 0:
                return p
            lo = lower(-p)
            if lo is not None and lo >= 0:
                return -p
            lead = min(p.terms, key=lambda m: m.id)
            if p.terms[lead] < 0:
                p = -p
        return atom(Atom("fn", ("abs", p)))
    if op == "pow":
        b, e = args
        c = e.const()
        if c is not None:
            return power(b, c)
        bs = [x for x in _bools(e)]
        if bs and len(bs) <= 4:
            return shannon(e, bs, lambda q: mkfn("pow", b, q))
        # symbolic exponent: b**(const + rest), integer constant part split off
        if b.const() == 1:
            return ONE
        return _sympow(b, e)
    if op in ("floor", "int"):
        p = args[0]
        c = p.const()
        if c is not None:
            import math
            return const(math.floor(c) if op == "floor" or c >= 0 else math.ceil(c))
        if is_int(p):
            return p
        r = floordiv_rule(p)
        if r is not None:
            return r
        if len(p.terms) == 1:
            # truncated quotient of non-negative integers
            (m, co), = p.terms.items()
            den = build((), tuple((a, -e) for a, e in m.factors if e < 0), Fraction(co.denominator)) if not m.bound else ONE
            if den is not ONE and is_int(den) and is_int(p * den) and (lower(p) or 0) >= 0 and lower(p) is not None:
                return mkfn("floordiv", p * den, den)
    if op in COMMUT:
        if len(args) == 2 and args[0] is args[1]:
            return args[0]
        if op in ("maximum", "minimum"):
            lo = lower(args[0] - args[1])
            if lo is not None and lo >= 0:
                return args[0] if op == "maximum" else args[1]
            lo = lower(args[1] - args[0])
            if lo is not None and lo >= 0:
                return args[1] if op == "maximum" else args[0]
        args = tuple(sorted(args, key=lambda p: p.id))
    if args:
        for i, a in enumerate(args):
            bs = _bools(a)
            if bs and len(bs) <= 3 and op not in ("and_", "or_"):
                return shannon(a, bs, lambda q: mkfn(op, *args[:i], q, *args[i + 1:]))
    return atom(Atom("fn", (op,) + args))


def _sympow(b, e):
    r = ONE
    cpart = e.terms.get(M1, F0)
    if cpart:
        r = power(b, cpart)
        e = e - const(cpart)
    # (prod a_i^k_i)^e -> prod (a_i)^(k_i e)
    if len(b.terms) == 1:
        (m, co), = b.terms.items()
        if not m.bound and co > 0:
            if co != 1:
                for n, s in ((co.numerator, 1), (co.denominator, -1)):
                    for pr, k in _primes(n).items():
                        r = r * mkexp(e.scale(Fraction(s * k)) * atom(Atom("fn", ("log", const(pr)))))
            for a, k in m.factors:
                la = a.args[0] if a.kind == "exp" else atom(Atom("fn", ("log", atom(a)))) if a.kind != "num" else atom(Atom("fn", ("log", const(a.args[0]))))
                r = r * mkexp_raw(e.scale(k) * la)
            return r
    return r * mkexp_raw(e * mklog(b))


def mkexp_raw(p):
    return mkexp(p)


def is_int(p):
    for m, c in p.terms.items():
        if c.denominator != 1:
            return False
        for a, e in m.factors:
            if e.denominator != 1 or e < 0:
                return False
            if a.kind in ("ix", "dim") or a.isbool:
                continue
            if a.kind == "fn" and a.args[0] in ("floor", "int", "mod", "floordiv"):
                continue
            if a.kind == "el" and a.args[0] in INT_ARRAYS:
                continue
            if a.kind == "op" and a.args[0] in INT_OPS:
                continue
            if a.kind == "sym" and a.args[0] in INT_ARRAYS:
                continue
            return False
    return True


INT_ARRAYS = set()
INT_OPS = {"where", "rank", "argmax", "argmin", "nnz", "choice", "nn_index", "argsort", "argsort?", "pieces"}


def floordiv_rule(p):
    """floor of  (integer poly) + (fraction poly in [0,1))"""
    ip, fp = {}, {}
    for m, c in p.terms.items():
        if is_int(Poly({m: F1})) and c.denominator == 1:
            ip[m] = c
        else:
            fp[m] = c
    if not ip or not fp:
        return None
    f = Poly(fp)
    lo = lower(f)
    hi = lower(ONE - f)
    if lo is not None and lo >= 0 and hi is not None and hi > 0:
        return Poly(ip)
    return None


# --------------------------------------------------------------------------
# comparisons
# --------------------------------------------------------------------------
DIM_MIN = {}
SYM_MIN = {}


def lower(p):
    """A lower bound of p (Fraction) from index ranges and dims >= 1, or None."""
    seen = 0
    while True:
        best = None
        for a in p.ixs:
            if best is None or a.id > best.id:
                best = a
        if best is None:
            break
        seen += 1
        if seen > 12:
            return None
        # p must be linear in best with index-free-of-best coefficient
        co, rest = ZERO, ZERO
        for m, c in p.terms.items():
            es = dict(m.factors)
            if best in es:
                if m.bound or es[best] != 1:
                    return None
                del es[best]
                co = co + build((), tuple(es.items()), c)
            elif best in m.ixs:
                return None
            else:
                rest = rest + Poly({m: c})
        lo = lower(co)
        if lo is not None and lo >= 0:
            p = rest
            continue
        lo = lower(-co)
        if lo is not None and lo >= 0:
            p = rest + co * (ixsize(best) - 1)
            continue
        return None
    tot = F0
    # shift dims: d = min + d', d' >= 0
    for m, c in p.terms.items():
        if m.bound:
            return None
        prod = F1
        for a, e in m.factors:
            if a.kind == "dim" and e > 0:
                prod *= DIM_MIN.get(a.args[0], 2) ** int(e) if e.denominator == 1 else 1
            elif a.kind == "num":
                return None
            elif a.isbool:
                prod = F0
            elif a.kind == "exp" or (a.kind == "sym" and a.args[0] in SYM_MIN and SYM_MIN[a.args[0]] == 0):
                prod = F0
            elif nonneg_atom(a) and not a.isbool:
                prod = F0
            elif a.kind == "op" and a.args[0] in ("nnz",):
                prod = F0
            else:
                return None
        if c < 0:
            if m is M1:
                tot += c
                continue
            if all(a.isbool for a, _ in m.factors):
                tot += c
                continue
            # negative coefficient on unbounded quantity: try pairing
            return _pairlower(p)
        tot += c * prod
    return tot


def _pairlower(p):
    """handle a - b style differences of dims products: substitute d = d'+min"""
    mp = {}
    for m in p.terms:
        for a, e in m.factors:
            if a.kind != "dim" or e.denominator != 1 or e < 0:
                return None
            mp[a] = a
    q = ZERO
    for m, c in p.terms.items():
        t = const(c)
        for a, e in m.factors:
            t = t * power(atom(a) + const(DIM_MIN.get(a.args[0], 2)), e)
        q = q + t
    tot = q.terms.get(M1, F0)
    for m, c in q.terms.items():
        if m is not M1 and c < 0:
            return None
    return tot


def _strict(p):
    """some term of p is strictly positive"""
    ok = lambda a: a.kind == "exp" or a.kind in ("sym", "el") and a.args[0] in POSITIVE_SYMS
    return any(c > 0 and not m.bound and any(ok(a) for a, _ in m.factors) and all(ok(a) or a.kind in ("num", "dim") for a, _ in m.factors)
               for m, c in p.terms.items())


def mkgt(p):
    """indicator of  p > 0"""
    c = p.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    i = inf_sign(p)
    if i is not None:
        return ONE if i > 0 else ZERO
    lo = lower(p)
    if lo is not None and (lo > 0 or lo == 0 and _strict(p)):
        return ONE
    lo = lower(-p)
    if lo is not None and lo >= 0:
        return ZERO
    bs = _bools(p)
    if bs and len(bs) <= 4:
        return shannon(p, bs, mkgt)
    if is_int(p):
        # 1 - x > 0 with x >= 0 integer  ->  x == 0
        q = ONE - p
        lo = lower(q)
        if lo is not None and lo >= 0:
            return mkeq(q, ZERO)
        # x > 0 with x >= 0 -> not x == 0
        lo = lower(p)
        if lo is not None and lo >= 0:
            return ONE - mkeq(p, ZERO)
        r = _radix(p)
        if r is not None:
            return r
        r = _small(p)
        if r is not None:
            return r
        # canonical between  p > 0  and  not (1 - p > 0)
        a1, a2 = _norm_cmp(p), _norm_cmp(ONE - p)
        if a2.id < a1.id:
            return ONE - atom(Atom("gt", (a2,)))
        return atom(Atom("gt", (a1,)))
    return atom(Atom("gt", (_norm_cmp(p),)))


def _radix(p):
    """s*A + i + c > 0 with 0 <= i < s (or its negation) decides on A alone
    when 1 - c (resp. c) is a multiple of s"""
    for m, co in p.terms.items():
        if m.bound or len(m.factors) != 1 or abs(co) != 1:
            continue
        (a, e), = m.factors
        if a.kind != "ix" or e != 1:
            continue
        sz = ixsize(a)
        if sum(1 for m2 in p.terms if a in m2.ixs) != 1:
            continue
        rest = p - Poly({m: co})  # p = rest + co*i
        A, c = ZERO, ZERO
        for m2, c2 in rest.terms.items():
            t = Poly({m2: c2})
            q = divides(t, sz)
            if q is not None and is_int(q):
                A = A + q
            else:
                c = c + t
        if A.const() is not None and not A.ixs:
            pass
        if co == 1 and c is ONE:      # s*A + i + 1 > 0  <=>  A >= 0
            return mkgt(A + 1)
        if co == -1 and c is ZERO:    # s*A - i > 0  <=>  A >= 1
            return mkgt(A)
    return None


def _small(p):
    """comparison of one index with a small constant range: sum of deltas"""
    ixs = list(p.ixs)
    if len(ixs) != 1:
        return None
    m = ixsize(ixs[0]).const()
    if m is None or m > 6:
        return None
    if any(a.kind != "ix" for mm_ in p.terms for a, _ in mm_.factors) or any(mm_.bound for mm_ in p.terms):
        return None
    true = []
    for v in range(int(m)):
        c = subst(p, {ixs[0]: const(v)}).const()
        if c is None:
            return None
        if c > 0:
            true.append(v)
    neg = len(true) > m - len(true)
    r = ZERO
    for v in range(int(m)):
        if (v in true) != neg:
            r = r + mkdelta(atom(ixs[0]) - v)
    return ONE - r if neg else r


def _norm_cmp(p):
    g = None
    for m, c in p.terms.items():
        g = c if g is None else Fraction(
            gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    g = abs(g)
    return p.scale(1 / g)


def mkge(p):
    """p >= 0"""
    return ONE - mkgt(-p)


def mkeq(p, q):
    """indicator p == q (delta when both are indices)"""
    if p is q:
        return ONE
    d = p - q
    c = d.const()
    if c is not None:
        return ZERO if c else ONE
    lo = lower(d)
    if lo is not None and lo > 0:
        return ZERO
    lo = lower(-d)
    if lo is not None and lo > 0:
        return ZERO
    if generic_dims(d) or inf_sign(d) is not None:
        return ZERO
    bs = _bools(d)
    if bs and len(bs) <= 4:
        return shannon(d, bs, lambda r: mkeq(r, ZERO))
    if len(d.terms) == 2:
        inj = _injective(d)
        if inj is not None:
            return mkeq(*inj)
    if d.ixs and is_int(d):
        return mkdelta(d)
    if len(d.terms) == 1:
        # a product vanishes iff one of its factors that can vanish does
        (m, co), = d.terms.items()
        if not m.bound:
            keep = [(a, e) for a, e in m.factors if e > 0 and not (
                a.kind in ("exp", "num", "dim") or a.kind == "sym" and a.args[0] in POSITIVE_SYMS)]
            if not keep:
                return ZERO
            if len(keep) < len(m.factors) or len(keep) == 1 and keep[0][1] != 1:
                r = ONE
                for a, _ in keep:
                    r = r * (a.args[0] if a.kind == "poly" else atom(a))
                return mkeq(r, ZERO)
    n = _norm_cmp(d)
    lead = min(n.terms, key=lambda m: m.id)
    if n.terms[lead] < 0:
        n = -n
    return atom(Atom("eq", (n,)))


def _one_atom(p):
    if len(p.terms) != 1:
        return None
    (m, c), = p.terms.items()
    if c != 1 or m.bound or len(m.factors) != 1 or m.factors[0][1] != 1:
        return None
    return m.factors[0][0]


def _injective(d):
    """d = f(..., p) - f(..., q) for a draw without replacement f (possibly
    sorted or broadcast from one rank): (p, q)"""
    at = []
    for m, c in d.terms.items():
        if abs(c) != 1 or m.bound or len(m.factors) != 1 or m.factors[0][1] != 1:
            return None
        at.append((c, m.factors[0][0]))
    (c1, a), (c2, b) = at
    if c1 + c2 != 0:
        return None
    return _inj_atoms(a, b)


def _inj_atoms(a, b):
    if a.kind != "op" or b.kind != "op" or a.args[0] != b.args[0] or a.args[1] != b.args[1]:
        return None
    name = a.args[0]
    if name in ("bcast", "mpi_bcast") and not a.args[3] and len(a.args[2]) == 1 and not a.args[2][0].params and not b.args[2][0].params:
        x, y = _one_atom(a.args[2][0].body), _one_atom(b.args[2][0].body)
        return _inj_atoms(x, y) if x is not None and y is not None else None
    if a.args[2] != b.args[2]:
        return None
    if len(a.args[3]) != len(b.args[3]) or any(x is not y for x, y in zip(a.args[3][:-1], b.args[3][:-1])):
        return None
    if name == "choice" and "norep" in a.args[1]:
        return a.args[3][-1], b.args[3][-1]
    if name == "sort" and len(a.args[2]) == 1 and len(a.args[2][0].params) == 1:
        (t,), body = a.args[2][0].open()
        u = tmp(ixsize(t))
        at, au = _one_atom(body), _one_atom(subst(body, {t: atom(u)}))
        r = _inj_atoms(at, au) if at is not None and au is not None else None
        if r is not None and r[0] is atom(t) and r[1] is atom(u):
            return a.args[3][-1], b.args[3][-1]
    return None


OPEN_DIMS = set()


def inf_sign(p):
    """sign of the coefficient of the symbol for infinity, or None"""
    for m, c in p.terms.items():
        if len(m.factors) == 1 and not m.bound and m.factors[0][0].kind == "sym" and m.factors[0][0].args[0] == "inf" and m.factors[0][1] == 1:
            return 1 if c > 0 else -1
    return None


def generic_dims(d):
    """d != 0 because named sizes are in generic position: differently named
    sizes denote different numbers >= 2 (coinciding sizes and size one are
    separate scenarios that use the same name or the literal 1)."""
    return all(a.kind == "dim" and a.args[0] not in OPEN_DIMS and e.denominator == 1
               for m in d.terms for a, e in m.factors) and not any(m.bound for m in d.terms)


def mkdelta(d):
    """indicator of integer index expression d == 0"""
    # mixed radix split: d = k*(p1-q1) + (p2-q2) with |p2-q2| < k
    for m in d.terms:
        for a, e in m.factors:
            if a.kind == "dim" or (m is not M1 and False):
                pass
    radices = []
    for m, c in d.terms.items():
        fs = dict(m.factors)
        rad = tuple((a, e) for a, e in m.factors if a.kind == "dim")
        if m.bound:
            continue
        r = build((), rad, abs(c)) if (rad or abs(c) != 1) else None
        if r is not None and r not in radices and any(a.kind != "dim" for a, _ in m.factors):
            radices.append(r)
    for r in radices:
        rc = r.const()
        hi, lo = ZERO, ZERO
        for m, c in d.terms.items():
            q = divides(Poly({m: c}), r)
            if q is not None:
                hi = hi + q
            else:
                lo = lo + Poly({m: c})
        if hi is ZERO or lo is ZERO:
            if lo is ZERO and hi is not ZERO and r is not ONE:
                return mkdelta(hi)
            continue
        b1, b2 = lower(r - 1 - lo), lower(r - 1 + lo)
        if b1 is not None and b1 >= 0 and b2 is not None and b2 >= 0:
            return mkeq(hi, ZERO) * mkeq(lo, ZERO)
    # split into p - q with positive coefficients
    P = Poly({m: c for m, c in d.terms.items() if c > 0})
    Q = Poly({m: -c for m, c in d.terms.items() if c < 0})
    # solve for a lone index when possible: ix = expr
    for m, c in sorted(d.terms.items(), key=lambda t: t[0].id):
        if abs(c) == 1 and not m.bound and len(m.factors) == 1:
            a, e = m.factors[0]
            if a.kind == "ix" and e == 1:
                rest = (Poly({m: c}) - d).scale(c)  # a = rest
                if a not in rest.ixs:
                    sa = rest.single()
                    n, rc = ixsize(a).const(), rest.const()
                    if n is not None and rc is not None and n <= 12:
                        if rc < 0 or rc >= n or rc.denominator != 1:
                            return ZERO
                        if rc == n - 1:
                            r = ONE
                            for k in range(int(n) - 1):
                                r = r - atom(Atom("delta", (atom(a), const(k))))
                            return r
                    if sa is not None and sa.kind == "ix" and sa.id > a.id:
                        return atom(Atom("delta", (atom(a), rest)))
                    if sa is not None and sa.kind == "ix":
                        return atom(Atom("delta", (rest, atom(a))))
                    return atom(Atom("delta", (atom(a), rest)))
    n = d
    lead = min(n.terms, key=lambda m: m.id)
    if n.terms[lead] < 0:
        n = -n
    return atom(Atom("eq", (n,)))


def divides(p, r):
    """p / r as a polynomial without negative powers, for monomial p, r"""
    q = p * power(r, -1)
    for m, c in q.terms.items():
        if c.denominator != 1:
            return None
        for a, e in m.factors:
            if e < 0:
                return None
    return q


def mkphi(c, a, b):
    return c * a + (ONE - c) * b


# --------------------------------------------------------------------------
# elements and operators
# --------------------------------------------------------------------------
SYMMETRIC = {}  # array name -> list of (axes tuple, axes tuple) index groups


def mkel(name, idxs):
    idxs = tuple(lift(i) for i in idxs)
    for i, x in enumerate(idxs):
        bs = _bools(x)
        if bs and len(bs) <= 4:
            return shannon(x, bs, lambda q: mkel(name, idxs[:i] + (q,) + idxs[i + 1:]))
    for g1, g2 in SYMMETRIC.get(name, ()):
        k1 = tuple(idxs[i].id for i in g1)
        k2 = tuple(idxs[i].id for i in g2)
        if k2 < k1:
            l = list(idxs)
            for i, j in zip(g1, g2):
                l[i], l[j] = l[j], l[i]
            idxs = tuple(l)
    return atom(Atom("el", (name, idxs)))


def mklam(temps, body):
    h = 1 + body.height
    names = tuple(ix(("l", h, k), ixsize(t)) for k, t in enumerate(temps))
    b = subst(body, {t: atom(n) for t, n in zip(temps, names)})
    return Lam(names, b)


def mkop(name, static, lams, idxs):
    """non elementwise operator: value at result index idxs"""
    idxs = tuple(lift(i) for i in idxs)
    for i, x in enumerate(idxs):
        bs = _bools(x)
        if bs and len(bs) <= 3:
            return shannon(x, bs, lambda q: mkop(name, static, lams, idxs[:i] + (q,) + idxs[i + 1:]))
    if name == "inv":
        n = len(idxs) // 2
        lam = lams[0]
        temps, body = lam.open()
        sw = {}
        for i in range(n):
            sw[temps[i]] = atom(temps[n + i])
            sw[temps[n + i]] = atom(temps[i])
        if subst(body, sw) is body:
            a, b = idxs[:n], idxs[n:]
            if tuple(x.id for x in b) < tuple(x.id for x in a):
                idxs = b + a
        # pull index-free multiplicative constants:  inv(cA) = inv(A)/c
        c = _content(body, temps)
        if c is not None and c is not ONE:
            body = body * power(c, -1)
            return power(c, -1) * mkop(name, static, (mklam(temps, body),), idxs)
    if name in ("rank",):
        # rank(mask, where(mask, m)) = m
        s = idxs[0].single()
        if s is not None and s.kind == "op" and s.args[0] == "where" and s.args[2] == lams:
            return s.args[3][0]
    if name == "where":
        s = idxs[0].single()
        if s is not None and s.kind == "op" and s.args[0] == "rank" and s.args[2] == lams:
            return s.args[3][0]
        if s is not None and s.kind == "op" and s.args[0] == "pieces" and not lams[0].ixs & frozenset(s.args[2][1].params):
            # the same entry of every piece
            temps, body = s.args[2][1].open()
            return mkop("pieces", (), (s.args[2][0], mklam(temps, mkop(name, static, lams, (body,)))), s.args[3])
        if s is not None and s.kind == "op" and s.args[0] == "where" and static == s.args[1] == (0,) and len(lams[0].params) == 1 and len(s.args[2][0].params) == 1:
            # the entries of a filtered filter
            temps, body = s.args[2][0].open()
            r = unfilter(body, temps[0], ixsize(temps[0]), lams[0]) if _counts(ixsize(temps[0])) else None
            if r is not None:
                return mkop("where", (0,), (mklam((r[0],), r[1]),), s.args[3])
    if name == "allreduce":
        lam = lams[0]
        body = lam.body
        c = body.const()
        if c is None and len(body.terms) >= 1:
            out = ZERO
            for m, co in body.terms.items():
                out = out + atom(Atom("op", (name, static, (Lam(lam.params, Poly({m: F1})),), idxs))).scale(co)
            return out
    return atom(Atom("op", (name, static, tuple(lams), idxs)))


def _content(body, temps):
    """common monomial factor without the given indices, for inv normalisation"""
    common = None
    ts = frozenset(temps)
    g = None
    for m, c in body.terms.items():
        fs = {a: k for a, k in m.factors if not (a.ixs & (ts | frozenset(m.bound))) and not a.isbool}
        common = fs if common is None else {a: min(k, fs[a]) for a, k in common.items() if a in fs}
        g = c if g is None else Fraction(
            gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    if g is None:
        return None
    g = abs(g)
    r = build((), tuple((common or {}).items()), g) if (common or g != 1) else None
    return r


# --------------------------------------------------------------------------
# substitution
# --------------------------------------------------------------------------
_substcache = {}


def subst(p, mp):
    if not (p.ixs & mp.keys()):
        return p
    mp = {k: v for k, v in mp.items() if k in p.ixs}
    key = (p, frozenset(mp.items()))
    r = _substcache.get(key)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.terms.items():
        if not (m.ixs & mp.keys()):
            out = out + Poly({m: c})
            continue
        bs, fs = openmono(m)
        keep = []
        r = ONE
        for a, e in fs:
            if a.ixs & mp.keys():
                r = r * power(subst_atom(a, mp), e)
            else:
                keep.append((a, e))
        r = r * build((), tuple(keep), c)
        for b in bs:
            r = sum_over(r, b)
        out = out + r
    if len(_substcache) > 400000:
        _substcache.clear()
    _substcache[key] = out
    return out


_sacache = {}


def subst_atom(a, mp):
    if a.kind == "ix":
        return mp.get(a) if a in mp else atom(a)
    if not (a.ixs & mp.keys()):
        return atom(a)
    mp = {k: v for k, v in mp.items() if k in a.ixs}
    key = (a, frozenset(mp.items()))
    r = _sacache.get(key)
    if r is None:
        r = _rebuild(a, lambda p: subst(p, mp), lambda l: _sublam(l, mp))
        if len(_sacache) > 400000:
            _sacache.clear()
        _sacache[key] = r
    return r


def _sublam(l, mp):
    if not (l.ixs & mp.keys()):
        return l
    temps, body = l.open()
    return mklam(temps, subst(body, mp))


def _rebuild(a, f, fl):
    k, ar = a.kind, a.args
    if k == "exp":
        return mkexp(f(ar[0]))
    if k == "fn":
        return mkfn(ar[0], *[f(x) for x in ar[1:]])
    if k == "poly":
        return f(ar[0])  # exponent reapplied by caller
    if k == "el":
        return mkel(ar[0], tuple(f(x) for x in ar[1]))
    if k == "delta":
        return mkeq(f(ar[0]), f(ar[1]))
    if k == "eq":
        return mkeq(f(ar[0]), ZERO)
    if k == "gt":
        return mkgt(f(ar[0]))
    if k == "bool":
        if len(ar) > 2:
            return mkbool2(ar[0], tuple(fl(l) for l in ar[2]), tuple(f(x) for x in ar[1]))
        return mkbool(ar[0], tuple(f(x) for x in ar[1]))
    if k == "op":
        return mkop(ar[0], ar[1], tuple(fl(l) for l in ar[2]), tuple(f(x) for x in ar[3]))
    if k in ("sym", "dim", "num"):
        return atom(a)
    raise TypeError(k)


def mkbool(name, args=()):
    return atom(Atom("bool", (name, tuple(args), ())))


def mkbool2(name, lams, args=()):
    """opaque boolean operator over lambdas (any, allclose, ...)"""
    return atom(Atom("bool", (name, tuple(args), tuple(lams))))


def map_atoms(p, fn, memo=None):
    """Rebuild p bottom-up, replacing atoms: fn(atom)->Poly or None."""
    memo = {} if memo is None else memo
    if p in memo:
        return memo[p]
    out = ZERO
    for m, c in p.terms.items():
        bs, fs = openmono(m)
        r = const(c)
        for a, e in fs:
            r = r * power(map_atom(a, fn, memo), e)
        for b in bs:
            r = sum_over(r, b)
        out = out + r
    memo[p] = out
    return out


def map_atom(a, fn, memo):
    r = fn(a)
    if r is not None:
        return r
    if a.kind == "ix":
        return atom(a)
    if not a.args:
        return atom(a)

    def fl(l):
        temps, body = l.open()
        return mklam(temps, map_atoms(body, fn, memo))

    return _rebuild(a, lambda p: map_atoms(p, fn, memo), fl)


def atoms_of(p, seen=None):
    """all atoms occurring anywhere in p"""
    seen = set() if seen is None else seen
    stack = [p]
    done = set()
    while stack:
        x = stack.pop()
        if isinstance(x, Lam):
            x = x.body
        if x in done:
            continue
        done.add(x)
        for m in x.terms:
            for b in m.bound:
                pass
            for a, _ in m.factors:
                if a not in seen:
                    seen.add(a)
                    stack.extend(_children(a.args))
    return seen


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------
def show_ix(a):
    t = a.args[0]
    if t[0] == "f":
        return f"i{t[2]}" + (f"_{t[3]}" if t[3] else "")
    if t[0] == "s":
        return f"s{t[1]}.{t[2]}"
    if t[0] == "l":
        return f"l{t[1]}.{t[2]}"
    return f"t{t[2]}"


def show_atom(a):
    k, ar = a.kind, a.args
    if k == "ix":
        return show_ix(a)
    if k in ("sym", "dim"):
        return str(ar[0])
    if k == "num":
        return str(ar[0])
    if k == "exp":
        return f"exp({show(ar[0])})"
    if k == "fn":
        return f"{ar[0]}({', '.join(show(x) for x in ar[1:])})"
    if k == "poly":
        return f"({show(ar[0])})"
    if k == "el":
        return f"{ar[0]}[{','.join(show(x) for x in ar[1])}]" if ar[1] else str(ar[0])
    if k == "delta":
        return f"[{show(ar[0])}=={show(ar[1])}]"
    if k == "eq":
        return f"[{show(ar[0])}==0]"
    if k == "gt":
        return f"[{show(ar[0])}>0]"
    if k == "bool":
        ls = "; ".join("λ" + ",".join(show_ix(p) for p in l.params) + "." + show(l.body) for l in ar[2])
        return f"[{ar[0]}{'(' + ', '.join(show(x) for x in ar[1]) + ls + ')' if ar[1] or ls else ''}]"
    if k == "op":
        ls = "; ".join("λ" + ",".join(show_ix(p) for p in l.params) + "." + show(l.body) if l.params else show(l.body) for l in ar[2])
        st = ",".join(str(s) for s in ar[1])
        return f"{ar[0]}{'<' + st + '>' if st else ''}({ls})[{','.join(show(x) for x in ar[3])}]"
    return f"{k}{ar}"


def show(p, limit=2000):
    if not p.terms:
        return "0"
    out = []
    for m, c in sorted(p.terms.items(), key=lambda t: t[0].id):
        fs = []
        for a, e in m.factors:
            s = show_atom(a)
            fs.append(s if e == 1 else f"{s}^{e}" if e.denominator == 1 and e > 0 else f"{s}^({e})")
        fs.sort()
        b = "Σ{" + ",".join(show_ix(x) for x in m.bound) + "} " if m.bound else ""
        body = "·".join(fs)
        if not body:
            t = str(c)
        elif c == 1:
            t = b + body
        elif c == -1:
            t = "-" + b + body
        else:
            t = f"{c}·{b}{body}"
        out.append(t)
    s = " + ".join(sorted(out)).replace("+ -", "- ")
    return s if len(s) <= limit else s[:limit] + "…"


def equal(p, q):
    """equality after clearing opaque polynomial denominators"""
    d = p - q
    for _ in range(6):
        if not d.terms:
            return True
        best = None
        for m in d.terms:
            for a, e in m.factors:
                if a.kind == "poly" and e < 0 and e.denominator == 1 and not (a.ixs & frozenset(m.bound)):
                    best = a
        if best is None:
            return False
        k = -min(dict(m.factors).get(best, F0) for m in d.terms)
        if k.denominator != 1 or k > 4 or any(best.ixs & frozenset(m.bound) for m in d.terms):
            return False
        base = best.args[0]
        out = ZERO
        for m, c in d.terms.items():
            fs = dict(m.factors)
            e = fs.pop(best, F0) + k
            if e.denominator != 1 or e < 0 or e > 6:
                return False
            t = build(m.bound, tuple(fs.items()), c)
            for _ in range(int(e)):
                t = t * base
            out = out + t
        d = out
        if len(d.terms) > 4000:
            return False
    return False
