"""Array algebra on abstract arrays (pure functions on ArrC)."""
from fractions import Fraction
from . import nf
from .nf import ONE, ZERO, const, lift, atom, subst, Poly, sum_over, mkeq, mkgt, mkge
from .values import ArrC, AbsRaise, Slice


class Unknown(Exception):
    """The operation is outside the domain: the result is Top."""


def mk(dims, body, dt="float", lib="np", **kw):
    return ArrC(tuple(tuple(f for f in ax if f is not ONE) for ax in dims), lift(body), dt, lib, **kw)


def scalar(p, dt="float", lib="np"):
    return ArrC((), lift(p), dt, lib)


def sizeof(ax):
    r = ONE
    for f in ax:
        r = r * f
    return r


def shape(a):
    return tuple(sizeof(ax) for ax in a.dims)


def axis(size):
    size = lift(size)
    return () if size is ONE else (size,)


def fr(ax, j, s):
    return nf.free(ax, j, s)


def free_idx(dims):
    return [[atom(fr(i, j, s)) for j, s in enumerate(ax)] for i, ax in enumerate(dims)]


def flat(fs, ixs):
    r = ZERO
    for s, i in zip(fs, ixs):
        r = r * s + i
    return r


def split_index(p, fs):
    """mixed radix digits of flat index p"""
    if not fs:
        return []
    if len(fs) == 1:
        return [p]
    s = sizeof(fs[1:])
    hi, lo = ZERO, ZERO
    for m, c in p.terms.items():
        q = nf.divides(Poly({m: c}), s)
        if q is not None:
            hi = hi + q
        else:
            lo = lo + Poly({m: c})
    b1, b2 = nf.lower(lo), nf.lower(s - 1 - lo)
    if b1 is None or b1 < 0 or b2 is None or b2 < 0:
        hi, lo = nf.mkfn("floordiv", p, s), nf.mkfn("mod", p, s)
    return [hi] + split_index(lo, fs[1:])


def at(a, idxs):
    mp = {}
    for i, ax in enumerate(a.dims):
        for j, s in enumerate(ax):
            mp[fr(i, j, s)] = idxs[i][j]
    return subst(a.body, mp)


def at_flat(a, ps):
    return at(a, [split_index(p, ax) for p, ax in zip(ps, a.dims)])


def temps_for(ax):
    return [nf.tmp(s) for s in ax]


# --------------------------------------------------------------------------
def bcast_axes(axes):
    ne = [ax for ax in axes if ax]
    if not ne:
        return ()
    best = max(ne, key=len)
    tot = sizeof(best)
    for ax in ne:
        if ax != best and sizeof(ax) is not tot:
            raise AbsRaise("ValueError", f"operands could not be broadcast together: sizes {nf.show(tot)} and {nf.show(sizeof(ax))}")
    return best


def broadcast(arrs, extra=None):
    """-> dims, bodies"""
    n = max([len(a.dims) for a in arrs] + [len(extra) if extra else 0])
    dims = []
    for k in range(n):
        axs = []
        for a in arrs:
            i = k - (n - len(a.dims))
            axs.append(a.dims[i] if i >= 0 else ())
        if extra:
            i = k - (n - len(extra))
            axs.append(extra[i] if i >= 0 else ())
        dims.append(bcast_axes(axs))
    dims = tuple(dims)
    idx = free_idx(dims)
    out = []
    for a in arrs:
        off = n - len(a.dims)
        if a.dims == dims:
            out.append(a.body)
            continue
        ix = []
        for i, ax in enumerate(a.dims):
            if not ax:
                ix.append([])
            elif ax == dims[off + i]:
                ix.append(idx[off + i])
            else:
                ix.append(split_index(flat(dims[off + i], idx[off + i]), ax))
        out.append(at(a, ix))
    return dims, out


def elementwise(fn, arrs, dt="float", lib="np"):
    dims, bodies = broadcast(arrs)
    return ArrC(dims, fn(*bodies), dt, lib)


def broadcast_to(a, dims):
    d, b = broadcast([a], extra=dims)
    for x, y in zip(d, dims):
        if sizeof(x) is not sizeof(y):
            raise AbsRaise("ValueError", "cannot broadcast to shape")
    if len(d) != len(dims):
        raise AbsRaise("ValueError", "cannot broadcast to shape")
    return a.with_(dims=d, body=b[0], view=None)


# --------------------------------------------------------------------------
def normaxis(k, n):
    if not isinstance(k, int):
        raise Unknown("symbolic axis")
    if k < -n or k >= n:
        raise AbsRaise("AxisError", f"axis {k} is out of bounds for array of dimension {n}")
    return k % n


def permute(a, perm):
    idx = [None] * len(perm)
    dims = tuple(a.dims[p] for p in perm)
    f = free_idx(dims)
    for new, old in enumerate(perm):
        idx[old] = f[new]
    return ArrC(dims, at(a, idx), a.dt, a.lib)


def reshape(a, sizes):
    """sizes: list of Poly, at most one None for -1"""
    facs = []  # (size, poly index placeholder)
    total = ONE
    for ax in a.dims:
        for s in ax:
            total = total * s
    if any(s is None for s in sizes):
        rest = ONE
        for s in sizes:
            if s is not None:
                rest = rest * s
        q = divide_size(total, rest)
        sizes = [q if s is None else s for s in sizes]
    p = ONE
    for s in sizes:
        p = p * s
    if p is not total:
        raise AbsRaise("ValueError", f"cannot reshape array of size {nf.show(total)} into shape ({', '.join(nf.show(s) for s in sizes)})")
    queue = []
    src = []
    for i, ax in enumerate(a.dims):
        for j, s in enumerate(ax):
            queue.append((s, (i, j)))
    # each source factor becomes list of (size) pieces
    pieces = {k: [] for _, k in queue}
    newdims = []
    qi = 0
    queue = list(queue)
    for t, tsz in enumerate(sizes):
        rem = tsz
        ax = []
        while rem is not ONE:
            if not queue:
                raise AbsRaise("ValueError", "cannot reshape")
            f, k = queue.pop(0)
            if f is rem:
                ax.append((f, k))
                rem = ONE
                continue
            q = nf.divides(rem, f) if mono(rem) and mono(f) else None
            if q is not None:
                ax.append((f, k))
                rem = q
                continue
            q = nf.divides(f, rem) if mono(rem) and mono(f) else None
            if q is not None:
                ax.append((rem, k))
                queue.insert(0, (q, k))
                rem = ONE
                continue
            raise Unknown("reshape does not align with factors")
        newdims.append(ax)
    dims = tuple(tuple(f for f, _ in ax) for ax in newdims)
    idx = free_idx(dims)
    parts = {}
    for i, ax in enumerate(newdims):
        for j, (f, k) in enumerate(ax):
            parts.setdefault(k, []).append((f, idx[i][j]))
    src = []
    for i, ax in enumerate(a.dims):
        row = []
        for j, s in enumerate(ax):
            ps = parts[(i, j)]
            row.append(flat([f for f, _ in ps], [x for _, x in ps]))
        src.append(row)
    return ArrC(dims, at(a, src), a.dt, a.lib)


def mono(p):
    return len(p.terms) == 1


def divide_size(total, rest):
    if total is rest:
        return ONE
    if mono(rest):
        q = nf.divides(total, rest)
        if q is not None:
            return q
        raise AbsRaise("ValueError", f"cannot reshape array of size {nf.show(total)} into a multiple of {nf.show(rest)}")
    raise Unknown("reshape -1 with compound size")


def squeeze(a, axes=None):
    n = len(a.dims)
    if axes is None:
        drop = [i for i, ax in enumerate(a.dims) if not ax]
    else:
        drop = [normaxis(k, n) for k in axes]
        for k in drop:
            if a.dims[k]:
                if a.lib == "torch":
                    drop = [d for d in drop if d != k]
                else:
                    raise AbsRaise("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
    keep = [i for i in range(n) if i not in drop]
    dims = tuple(a.dims[i] for i in keep)
    f = free_idx(dims)
    idx = [[]] * n
    for new, old in enumerate(keep):
        idx[old] = f[new]
    return ArrC(dims, at(a, idx), a.dt, a.lib)


def expand(a, k):
    n = len(a.dims) + 1
    k = normaxis(k, n)
    dims = a.dims[:k] + ((),) + a.dims[k:]
    f = free_idx(dims)
    return ArrC(dims, at(a, f[:k] + f[k + 1:]), a.dt, a.lib)


# --------------------------------------------------------------------------
def reduce_(a, axes, keepdims, fn):
    """fn(body, temps) -> Poly"""
    n = len(a.dims)
    if axes is None:
        axes = list(range(n))
    axes = sorted({normaxis(k, n) for k in axes})
    temps = []
    idx = []
    outdims = []
    for i, ax in enumerate(a.dims):
        if i in axes:
            if keepdims:
                outdims.append(())
        else:
            outdims.append(ax)
    f = free_idx(outdims)
    j = 0
    for i, ax in enumerate(a.dims):
        if i in axes:
            t = temps_for(ax)
            temps += t
            idx.append([atom(x) for x in t])
            if keepdims:
                j += 1
        else:
            idx.append(f[j])
            j += 1
    body = fn(at(a, idx), temps)
    return ArrC(tuple(outdims), body, a.dt, a.lib)


def r_sum(body, temps):
    for t in temps:
        body = sum_over(body, t)
    return body


def r_prod(body, temps):
    for t in temps:
        c = nf.ixsize(t).const()
        if c is not None and c <= 12:
            r = ONE
            for k in range(int(c)):
                r = r * subst(body, {t: const(k)})
            body = r
        elif t not in body.ixs:
            body = nf.mkfn("pow", body, nf.ixsize(t))
        else:
            body = nf.mkop("prod", (), (nf.mklam((t,), body),), ())
    return body


def r_any(body, temps):
    temps = [t for t in temps]
    for t in list(temps):
        if t not in body.ixs:
            temps.remove(t)
            continue
        c = nf.ixsize(t).const()
        if c is not None and c <= 12:
            r = ONE
            for k in range(int(c)):
                r = r * (ONE - subst(body, {t: const(k)}))
            body = ONE - r
            temps.remove(t)
    if not temps or body.const() is not None:
        return body
    return nf.mkbool2("any", (nf.mklam(tuple(temps), body),))


def r_all(body, temps):
    return ONE - r_any(ONE - body, temps)


def r_op(name, dt=None):
    def f(body, temps):
        temps = tuple(t for t in temps)
        if not temps:
            return body if name not in ("argmax", "argmin") else ZERO
        if name in ("max", "min", "median") and not (body.ixs & set(temps)):
            return body
        if len(temps) == 1 and name in ("max", "min"):
            c = nf.ixsize(temps[0]).const()
            if c is not None and c <= 4:
                r = subst(body, {temps[0]: ZERO})
                for k in range(1, int(c)):
                    r = minmax(name, r, subst(body, {temps[0]: const(k)}))
                return r
        return nf.mkop(name, (), (nf.mklam(temps, body),), ())
    return f


def minmax(name, a, b):
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    g = mkgt(a - b)
    if name in ("max", "maximum"):
        return nf.mkphi(g, a, b)
    return nf.mkphi(g, b, a)


# --------------------------------------------------------------------------
def einsum(spec, arrs, lib="np"):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(arrs):
        raise AbsRaise("ValueError", "einsum operand count mismatch")
    # expand ellipsis
    nell = 0
    for s, a in zip(ins, arrs):
        if "..." in s:
            nell = max(nell, len(a.dims) - (len(s) - 3))
    ell = [chr(0x3B1 + k) for k in range(nell)]
    ins2 = []
    for s, a in zip(ins, arrs):
        if "..." in s:
            k = len(a.dims) - (len(s) - 3)
            s = s.replace("...", "".join(ell[nell - k:]))
        if len(s) != len(a.dims):
            raise AbsRaise("ValueError", f"einstein sum subscripts string '{spec}' does not match operand of dimension {len(a.dims)}")
        ins2.append(s)
    if out is None:
        cnt = {}
        for s in ins2:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(ell) + "".join(sorted(ch for ch in cnt if cnt[ch] == 1 and ch not in ell))
    else:
        out = out.replace("...", "".join(ell))
    axes = {}
    for s, a in zip(ins2, arrs):
        for ch, ax in zip(s, a.dims):
            axes.setdefault(ch, []).append(ax)
    axes = {ch: bcast_axes(v) for ch, v in axes.items()}
    dims = tuple(axes[ch] for ch in out)
    f = free_idx(dims)
    idx = {}
    temps = []
    for ch, ax in axes.items():
        if ch in out:
            idx[ch] = f[out.index(ch)]
        else:
            t = temps_for(ax)
            temps += t
            idx[ch] = [atom(x) for x in t]
    body = ONE
    for s, a in zip(ins2, arrs):
        ii = []
        for ch, ax in zip(s, a.dims):
            if not ax:
                ii.append([])
            elif ax == axes[ch]:
                ii.append(idx[ch])
            else:
                ii.append(split_index(flat(axes[ch], idx[ch]), ax))
        body = body * at(a, ii)
    return ArrC(dims, r_sum(body, temps), "float", lib)


LET = "abcdefghijklmnopqrstuvwxyz"


def matmul(a, b, lib="np"):
    na, nb = len(a.dims), len(b.dims)
    if na == 0 or nb == 0:
        raise AbsRaise("ValueError", "matmul: input operand does not have enough dimensions")
    if na == 1 and nb == 1:
        return einsum("i,i->", [a, b], lib)
    if na == 1:
        k = nb - 2
        s = LET[:k]
        return einsum(f"y,{s}yz->{s}z", [a, b], lib)
    if nb == 1:
        s = LET[:na - 2]
        return einsum(f"{s}xy,y->{s}x", [a, b], lib)
    n = max(na, nb) - 2
    L = LET[:n]
    sa, sb = L[n - (na - 2):], L[n - (nb - 2):]
    return einsum(f"{sa}xy,{sb}yz->{L}xz", [a, b], lib)


def inverse(a):
    """elementwise access to the inverse over the last two axes"""
    n = len(a.dims)
    if n < 2:
        raise AbsRaise("LinAlgError", "array must be at least two-dimensional")
    r, c = a.dims[-2], a.dims[-1]
    if sizeof(r) is not sizeof(c):
        raise AbsRaise("LinAlgError", "Last 2 dimensions of the array must be square")
    f = free_idx(a.dims)
    if not r:
        return ArrC(a.dims, nf.power(a.body, -1), "float", a.lib)
    fs = r if len(r) >= len(c) else c
    t1, t2 = temps_for(fs), temps_for(fs)
    i1 = [atom(t) for t in t1]
    i2 = [atom(t) for t in t2]
    e1 = i1 if fs == r else split_index(flat(fs, i1), r)
    e2 = i2 if fs == c else split_index(flat(fs, i2), c)
    body = at(a, f[:-2] + [e1, e2])
    lam = nf.mklam(tuple(t1 + t2), body)
    dims = a.dims[:-2] + (fs, fs)
    f = free_idx(dims)
    return ArrC(dims, nf.mkop("inv", (), (lam,), tuple(f[-2]) + tuple(f[-1])), "float", a.lib)


def solve(a, b, lib="np"):
    na, nb = len(a.dims), len(b.dims)
    vec = False
    if lib == "torch":
        vec = nb == 1 or (na - 1 == nb and shape(b) == shape(a)[:-1])
    else:
        vec = nb == na - 1
    inv = inverse(a)
    if vec:
        r = matmul(inv, expand(b, -1), lib)
        return squeeze(r, [-1])
    if nb < 2:
        raise AbsRaise("ValueError", "solve: b has too few dimensions")
    return matmul(inv, b, lib)


def logdet(a):
    n = len(a.dims)
    if n < 2:
        raise AbsRaise("LinAlgError", "array must be at least two-dimensional")
    r, c = a.dims[-2], a.dims[-1]
    if sizeof(r) is not sizeof(c):
        raise AbsRaise("LinAlgError", "Last 2 dimensions of the array must be square")
    dims = a.dims[:-2]
    f = free_idx(dims)
    if not r:
        return ArrC(dims, nf.mklog(nf.mkfn("abs", at(a, f + [[], []]))), "float", a.lib)
    t1, t2 = temps_for(r), temps_for(r)
    body = at(a, f + [[atom(t) for t in t1], [atom(t) for t in t2] if r == c else split_index(flat(r, [atom(t) for t in t2]), c)])
    return ArrC(dims, nf.mkop("logdet", (), (nf.mklam(tuple(t1 + t2), body),), ()), "float", a.lib)


# --------------------------------------------------------------------------
def concat(arrs, k, lib="np"):
    n = len(arrs[0].dims)
    for a in arrs:
        if len(a.dims) != n:
            raise AbsRaise("ValueError", "all the input arrays must have same number of dimensions")
    k = normaxis(k, n)
    if len(arrs) == 1:
        return arrs[0].with_(view=None)
    dims = []
    for i in range(n):
        if i == k:
            tot = ZERO
            for a in arrs:
                tot = tot + sizeof(a.dims[i])
            dims.append(axis(tot))
        else:
            axs = [a.dims[i] for a in arrs]
            b = max(axs, key=len)
            for ax in axs:
                if sizeof(ax) is not sizeof(b):
                    raise AbsRaise("ValueError", "all the input array dimensions except for the concatenation axis must match exactly")
            dims.append(b)
    f = free_idx(dims)
    body = ZERO
    off = ZERO
    pos = flat(dims[k], f[k])
    tot = sizeof(dims[k])
    for q, a in enumerate(arrs):
        sz = sizeof(a.dims[k])
        ind = ONE
        if off is not ZERO:
            ind = ind * mkge(pos - off)
        if q < len(arrs) - 1:
            ind = ind * mkgt(off + sz - pos)
        idx = []
        for i, ax in enumerate(a.dims):
            if i == k:
                idx.append(split_index(pos - off, ax))
            elif ax == dims[i]:
                idx.append(f[i])
            else:
                idx.append(split_index(flat(dims[i], f[i]), ax))
        body = body + ind * at(a, idx)
        off = off + sz
    dt = arrs[0].dt
    for a in arrs[1:]:
        dt = promote_dt(dt, a.dt)
    return ArrC(tuple(dims), body, dt, lib)


def stack(arrs, k, lib="np"):
    return concat([expand(a, k if k >= 0 else k) for a in arrs], k, lib)


def promote_dt(a, b):
    o = {"bool": 0, "int": 1, "float": 2, "object": 3}
    return a if o[a] >= o[b] else b


def repeat_each(a, n, k):
    """np.repeat(a, n, axis=k)"""
    dims = a.dims[:k] + (a.dims[k] + axis(n),) + a.dims[k + 1:]
    f = free_idx(dims)
    idx = list(f)
    idx[k] = f[k][:len(a.dims[k])]
    return ArrC(dims, at(a, idx), a.dt, a.lib)


def tile_axis(a, n, k):
    ax = axis(n)
    dims = a.dims[:k] + (ax + a.dims[k],) + a.dims[k + 1:]
    f = free_idx(dims)
    idx = list(f)
    idx[k] = f[k][len(ax):]
    return ArrC(dims, at(a, idx), a.dt, a.lib)


# --------------------------------------------------------------------------
# indexing.  Keys: int Poly (("i", p)), slices (Slice of Poly/None),
# None, Ellipsis, integer arrays (ArrC dt int), boolean arrays (ArrC dt bool)
# --------------------------------------------------------------------------
def _expand_key(key, n):
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, ArrC) and k.dt == "bool":
            used += max(1, len(k.dims)) if len(k.dims) else 0
        else:
            used += 1
    if used > n:
        raise AbsRaise("IndexError", f"too many indices for array: array is {n}-dimensional, but {used} were indexed")
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise AbsRaise("IndexError", "an index can only have a single ellipsis")
            seen = True
            out += [Slice(None, None, None)] * (n - used)
        else:
            out.append(k)
    if not seen:
        out += [Slice(None, None, None)] * (n - used)
    return out


def _bound(b, size, default):
    if b is None:
        return default
    c = b.const()
    sc = size.const()
    if c is not None and sc is not None:
        if c < 0:
            c = max(F0, c + sc)
        return const(min(c, sc))
    if c is not None:
        return size + b if c < 0 else b
    lo = nf.lower(b)
    if lo is None or lo < 0:
        lo2 = nf.lower(-b)
        if lo2 is not None and lo2 > 0:
            return size + b
    return b


F0 = Fraction(0)


def _slice_info(s, ax):
    """-> (newaxis factors, fn mapping new factor idx -> old factor idx,
    indicator fn(old idx) and inverse map old->new)"""
    size = sizeof(ax)
    if s.a is None and s.b is None and (s.c is None or s.c is ONE):
        return ax, (lambda ix: ix), (lambda ix: ONE), (lambda ix: ix)
    step = ONE if s.c is None else s.c
    sc = step.const()
    if sc is None or sc == 0:
        raise Unknown("symbolic slice step")
    if sc < 0:
        if sc == -1 and s.a is None and s.b is None:
            if not ax:
                return ax, (lambda ix: ix), (lambda ix: ONE), (lambda ix: ix)
            rev = lambda ix: split_index(size - 1 - flat(ax, ix), ax)
            return ax, rev, (lambda ix: ONE), rev
        n = size.const()
        if n is None:
            raise Unknown("negative slice step")
    lo = _bound(s.a, size, ZERO)
    hi = _bound(s.b, size, size)
    n = size.const()
    if n is not None and lo.const() is not None and hi.const() is not None:
        a = None if s.a is None else int(s.a.const())
        b = None if s.b is None else int(s.b.const())
        r = range(*slice(a, b, int(sc)).indices(int(n)))
        cnt = len(r)
        start, st = r.start, r.step
        if cnt == 0:
            return axis(ZERO), (lambda ix: [ZERO] * len(ax)), (lambda ix: ZERO), (lambda ix: [ZERO])
        nax = axis(const(cnt))
        fwd = lambda ix: split_index(const(start) + flat(nax, ix) * st, ax)

        def ind(ix):
            p = flat(ax, ix)
            t = ZERO
            for v in r:
                t = t + mkeq(p, const(v))
            return t if cnt < int(n) else ONE
        if st == 1:
            back = lambda ix: split_index(flat(ax, ix) - start, nax)
        else:
            back = lambda ix: split_index(nf.mkfn("floordiv", flat(ax, ix) - start, const(st)), nax)
        return nax, fwd, ind, back
    if sc != 1:
        raise Unknown("strided slice of symbolic axis")
    # clip the upper bound
    d = nf.lower(size - hi)
    if d is None or d < 0:
        d2 = nf.lower(hi - size)
        if d2 is not None and d2 >= 0:
            hi = size
        elif not any(a.kind in ("sym", "op", "fn") for a in nf.atoms_of(hi)):
            # generic dims: keep as stated, assumed within range
            pass
    cnt = hi - lo
    c = cnt.const()
    if c is not None and c <= 0:
        raise Unknown("empty slice")
    nax = axis(cnt)
    if lo is ZERO and cnt is size:
        return ax, (lambda ix: ix), (lambda ix: ONE), (lambda ix: ix)
    fwd = lambda ix: split_index(lo + flat(nax, ix), ax)

    def ind(ix):
        p = flat(ax, ix)
        r = ONE
        if lo is not ZERO:
            r = r * mkge(p - lo)
        if hi is not size:
            r = r * mkgt(hi - p)
        return r
    back = lambda ix: split_index(flat(ax, ix) - lo, nax)
    return nax, fwd, ind, back


def _nnz_axis(mask):
    t = [temps_for(ax) for ax in mask.dims]
    body = at(mask, [[atom(x) for x in r] for r in t])
    c = body.const()
    flatt = tuple(x for r in t for x in r)
    lam = nf.mklam(flatt, body)
    if c == 1:
        fs = tuple(f for ax in mask.dims for f in ax)
        return fs, lam, True
    cnt = body
    for x in flatt:
        cnt = sum_over(cnt, x)
    return axis(cnt), lam, False


def _mask_to_ints(mask):
    """a boolean mask -> one integer index array (1-d) per mask axis"""
    fs, lam, full = _nnz_axis(mask)
    dims = (fs,)
    f = free_idx(dims)[0]
    out = []
    if full:
        k = 0
        for ax in mask.dims:
            out.append(ArrC(dims, flat(ax, f[k:k + len(ax)]), "int", mask.lib))
            k += len(ax)
        return out
    if len(mask.dims) == 1 and len(mask.dims[0]) == 1:
        return [ArrC(dims, nf.mkop("where", (0,), (lam,), (flat(fs, f),)), "int", mask.lib)]
    for k, ax in enumerate(mask.dims):
        out.append(ArrC(dims, nf.mkop("where", (k,), (lam,), (flat(fs, f),)) if ax else ZERO, "int", mask.lib))
    return out


def _lib(a):
    return a.lib


def getitem(a, key):
    key = _expand_key(key, len(a.dims))
    adv = [k for k in key if isinstance(k, ArrC)]
    if adv:
        return _getitem_adv(a, key)
    outdims, src = [], []
    j = 0
    maps = []
    for k in key:
        if k is None:
            outdims.append(())
            maps.append(("new", None, None))
            continue
        ax = a.dims[j]
        if isinstance(k, Slice):
            nax, fwd, _, _ = _slice_info(k, ax)
            maps.append(("slice", fwd, len(outdims)))
            outdims.append(nax)
        else:
            maps.append(("int", _intidx(k, ax), None))
        j += 1
    f = free_idx(outdims)
    for kind, x, pos in maps:
        if kind == "slice":
            src.append(x(f[pos]))
        elif kind == "int":
            src.append(split_index(x, ax_of(a, len(src))))
    return ArrC(tuple(outdims), at(a, src), a.dt, a.lib)


def ax_of(a, i):
    return a.dims[i]


def _intidx(k, ax):
    size = sizeof(ax)
    c = k.const()
    n = size.const()
    if c is not None and n is not None:
        if c >= n or c < -n:
            raise AbsRaise("IndexError", f"index {c} is out of bounds for axis with size {n}")
        return const(c % n)
    if c is not None and c < 0:
        return size + k
    if c is None:
        hi = nf.lower(-k)
        if hi is not None and hi > 0:
            return size + k
    return k


def _getitem_adv(a, key):
    # integer scalars act as advanced indices together with arrays
    ent = []  # (axis or None, kind, payload)
    j = 0
    for k in key:
        if k is None:
            ent.append((None, "new", None))
        elif isinstance(k, Slice):
            ent.append((j, "slice", k))
            j += 1
        elif isinstance(k, ArrC) and k.dt == "bool":
            if not k.dims:
                raise Unknown("0-d boolean index")
            for q, x in enumerate(k.dims):
                if sizeof(x) is not sizeof(a.dims[j + q]):
                    raise AbsRaise("IndexError", "boolean index did not match indexed array")
            for x in _mask_to_ints(k):
                ent.append((j, "adv", x))
                j += 1
        elif isinstance(k, ArrC):
            if k.dt != "int":
                raise AbsRaise("IndexError", "arrays used as indices must be of integer (or boolean) type")
            ent.append((j, "adv", k))
            j += 1
        else:
            ent.append((j, "adv", scalar(_intidx(k, a.dims[j]), "int")))
            j += 1
    advpos = [i for i, e in enumerate(ent) if e[1] == "adv"]
    dims, bodies = broadcast([ent[i][2] for i in advpos])
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    outdims = []
    slot = {}
    advstart = None
    if not contiguous:
        advstart = 0
        outdims += list(dims)
    for i, e in enumerate(ent):
        if e[1] == "adv":
            if contiguous and advstart is None:
                advstart = len(outdims)
                outdims += list(dims)
        elif e[1] == "new":
            outdims.append(())
        else:
            nax, fwd, _, _ = _slice_info(e[2], a.dims[e[0]])
            slot[i] = (len(outdims), fwd)
            outdims.append(nax)
    f = free_idx(outdims)
    # rename adv bodies from their own axes to output positions
    mp = {}
    for q, ax in enumerate(dims):
        for r, s in enumerate(ax):
            mp[fr(q, r, s)] = f[advstart + q][r]
    src = [None] * len(a.dims)
    b = iter(bodies)
    for i, e in enumerate(ent):
        if e[1] == "adv":
            p = subst(next(b), mp)
            src[e[0]] = split_index(_wrapneg(p, a.dims[e[0]]), a.dims[e[0]])
        elif e[1] == "slice":
            pos, fwd = slot[i]
            src[e[0]] = fwd(f[pos])
    return ArrC(tuple(outdims), at(a, src), a.dt, a.lib)


def _wrapneg(p, ax):
    c = p.const()
    if c is not None and c < 0:
        return sizeof(ax) + p
    return p


def setitem(a, key, v):
    """new content of a after a[key] = v  (v an ArrC)"""
    key = _expand_key(key, len(a.dims))
    f = free_idx(a.dims)
    if len(key) == 1 and isinstance(key[0], ArrC) and key[0].dt == "bool" and len(key[0].dims) == len(a.dims) and not v.dims:
        dims, bs = broadcast([key[0]], extra=a.dims)
        if dims != a.dims:
            raise Unknown("mask factorisation")
        return a.with_(body=nf.mkphi(bs[0], v.body, a.body))
    ind = ONE
    outdims, back = [], []
    j = 0
    ent = []
    for k in key:
        if k is None:
            ent.append((None, "new", None))
        elif isinstance(k, Slice):
            ent.append((j, "slice", k))
            j += 1
        elif isinstance(k, ArrC) and k.dt == "bool":
            for x in _mask_to_ints(k):
                ent.append((j, "adv", x))
                j += 1
        elif isinstance(k, ArrC):
            if k.dt != "int":
                raise AbsRaise("IndexError", "arrays used as indices must be of integer (or boolean) type")
            ent.append((j, "adv", k))
            j += 1
        else:
            ent.append((j, "int", _intidx(k, a.dims[j])))
            j += 1
    hasadv = any(e[1] == "adv" for e in ent)
    if hasadv:
        ent = [(e[0], "adv", scalar(e[2], "int")) if e[1] == "int" else e for e in ent]
    advpos = [i for i, e in enumerate(ent) if e[1] == "adv"]
    advidx = None
    if advpos:
        dims, bodies = broadcast([ent[i][2] for i in advpos])
        # fresh temps for the broadcast index space
        temps = [[nf.tmp(s) for s in ax] for ax in dims]
        mp = {}
        for q, ax in enumerate(dims):
            for r, s in enumerate(ax):
                mp[fr(q, r, s)] = atom(temps[q][r])
        eqs = []
        for i, b in zip(advpos, bodies):
            axk = ent[i][0]
            eqs.append((flat(a.dims[axk], f[axk]), _wrapneg(subst(b, mp), a.dims[axk]), axk))
        todo = [t for r in temps for t in r]
        sol = {}
        progress = True
        # split composite targets digitwise
        eqs2 = []
        for lhs, rhs, axk in eqs:
            digs = split_index(rhs, a.dims[axk])
            for l, r_ in zip(f[axk], digs):
                eqs2.append((l, r_))
        eqs = eqs2
        while todo and progress:
            progress = False
            for n_, (lhs, rhs) in enumerate(eqs):
                s = rhs.single()
                if s is not None and s in todo:
                    sol[s] = lhs
                    todo.remove(s)
                    # range check
                    if nf.ixsize(s) is not nf.ixsize(lhs.single()) if lhs.single() is not None and lhs.single().kind == "ix" else True:
                        ind = ind * mkgt(nf.ixsize(s) - lhs)
                    eqs.pop(n_)
                    eqs = [(l, subst(r_, {s: lhs})) for l, r_ in eqs]
                    progress = True
                    break
                if s is not None and s.kind == "op" and s.args[0] == "where" and len(s.args[1]) == 1:
                    inner = s.args[3][0].single()
                    if inner is not None and inner in todo and len(s.args[2][0].params) == 1:
                        lam = s.args[2][0]
                        tt, bb = lam.open()
                        sol[inner] = nf.mkop("rank", (0,), (lam,), (lhs,))
                        ind = ind * subst(bb, {tt[0]: lhs})
                        todo.remove(inner)
                        eqs.pop(n_)
                        eqs = [(l, subst(r_, {inner: sol[inner]})) for l, r_ in eqs]
                        progress = True
                        break
                # affine: rhs = t + c
                for t in todo:
                    d = rhs - atom(t)
                    if t not in d.ixs:
                        sol[t] = lhs - d
                        ind = ind * mkge(lhs - d) * mkgt(nf.ixsize(t) - lhs + d)
                        todo.remove(t)
                        eqs.pop(n_)
                        eqs = [(l, subst(r_, {t: lhs - d})) for l, r_ in eqs]
                        progress = True
                        break
                if progress:
                    break
        if todo and not v.dims:
            # value does not depend on position: indicator of membership
            cond = ONE
            for lhs, rhs in eqs:
                cond = cond * mkeq(lhs, rhs)
            ind = ind * r_any(cond, todo)
        elif todo:
            raise Unknown("scatter through a non invertible index array")
        else:
            for lhs, rhs in eqs:
                ind = ind * mkeq(lhs, rhs)
        advidx = [[sol.get(t, ZERO) for t in r] for r in temps]
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    advdone = False
    if advpos and not contiguous:
        outdims += list(dims)
        back += advidx
        advdone = True
    for i, e in enumerate(ent):
        if e[1] == "adv":
            if not advdone:
                outdims += list(dims)
                back += advidx
                advdone = True
        elif e[1] == "new":
            outdims.append(())
            back.append([])
        elif e[1] == "slice":
            nax, _, inf, bk = _slice_info(e[2], a.dims[e[0]])
            ind = ind * inf(f[e[0]])
            outdims.append(nax)
            back.append(bk(f[e[0]]))
        else:
            ind = ind * mkeq(flat(a.dims[e[0]], f[e[0]]), e[2])
    # v broadcasts to outdims
    while len(v.dims) > len(outdims) and not v.dims[0]:
        v = squeeze(v, [0])
    if len(v.dims) > len(outdims):
        raise AbsRaise("ValueError", "could not broadcast input array into shape")
    d, (vb,) = broadcast([v], extra=tuple(outdims))
    for x, y in zip(d, outdims):
        if sizeof(x) is not sizeof(y):
            raise AbsRaise("ValueError", f"could not broadcast input array into shape ({', '.join(nf.show(sizeof(y)) for y in outdims)})")
    mp = {}
    for q, ax in enumerate(d):
        b = back[q] if tuple(outdims[q]) == tuple(ax) else split_index(flat(outdims[q], back[q]), ax)
        for r, s in enumerate(ax):
            mp[fr(q, r, s)] = b[r]
    val = subst(vb, mp)
    return a.with_(body=nf.mkphi(ind, val, a.body))
