"""C15: prediction/training tensors are row-aligned; C20: the MPI partition of these rows."""
from .common import *
from .. import arr as A
from .deform import fsizes, FEAT

TSETUP = SETUP + """
def one(d, l):
    if d == "isotropy":
        return dict(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(l))))
    return dict(kernel=Matern(deformation=Anisotropy(l2, length_scale=VectorParameter(Parameter(l), Parameter(2 * l)))))
def build(d, mv):
    return MultivariateMuyGPS(one(d, 1.0), one(d, 2.0)) if mv else MuyGPS(**one(d, 1.0))
"""
PROG = """
model = build(D, MV)
pred = model.make_predict_tensors(ind, nn, TEST, train, y)
trn = model.make_train_tensors(ind, nn, train, y)
"""


def specs(d, b, n, f, r, T, X, Y, I, NN, rows=None, count=None):
    """expected (prediction tensors, training tensors); rows: the global row of local row i"""
    g = rows or (lambda i: i)
    cnt = b if count is None else count
    tail = lambda p: (lambda *a: [p(*a)] if False else p(*a))

    def fold(h, *ax):
        if d == "isotropy":
            return Spec(list(ax), lambda *a: ssum(f, lambda k: nf.power(h(*a, k), 2)))
        return Spec(list(ax) + [f], h)
    cross = lambda Z: fold(lambda i, j, k: Z(I(g(i)), k) - X(NN(g(i), j), k), cnt, n)
    pair = fold(lambda i, p, q, k: X(NN(g(i), p), k) - X(NN(g(i), q), k), cnt, n, n)
    nt = Spec([cnt, n] + r, lambda i, j, *c: Y(NN(g(i), j), *c))
    bt = Spec([cnt] + r, lambda i, *c: Y(I(g(i)), *c))
    return (cross(T), pair, nt), (cross(X), pair, bt, nt)


LABELS = (("crosswise", "pairwise", "nn_targets"), ("crosswise", "pairwise", "targets", "nn_targets"))
WHERE = ("make_predict_tensors", "make_train_tensors")


def setup(s, d, tgt, mv, b, n, f, given, r=None, N=None, M=None):
    N, M = N or dim("N"), M or dim("M")
    if d != "isotropy":
        f = const(2) if f is not ONE else f
    r = [] if tgt == "flat" else [const(2) if mv else r or dim("r")]
    train, X = s.inp("train", N, f)
    test, T = s.inp("test", M, f) if given else (None, X)
    ind, I = s.inp("ind", b, dt="int")
    nn, NN = s.inp("nn", b, n, dt="int")
    y, Y = s.inp("y", N, *r)
    env = dict(D=d, MV=mv, train=train, TEST=test, ind=ind, nn=nn, y=y)
    return env, (b, n, f, r, T, X, Y, I, NN)


@rule("C15", "rows", [(be, d, t, mv, g) for be in LOCAL for d in ("isotropy", "anisotropy") for t in ("columns", "flat")
                      for mv in (False, True) for g in (True, False) if not (mv and t == "flat")],
      "row i of every tensor made for prediction/training belongs to query index i and its own neighbours")
def rows(c, backend, d, tgt, mv, given):
    s = S(backend)
    env, a = setup(s, d, tgt, mv, dim("b"), dim("n"), dim("f"), given)
    e = s.run(TSETUP + PROG, **env)
    for got, want, labs, wh in zip((e.pred, e.trn), specs(d, *a), LABELS, WHERE):
        items = s.get_list(got)
        c.check(f"{wh}/count", len(items) == len(want), f"{len(items)} tensors returned", wh)
        for g, w, l in zip(items, want, labs):
            c.eq(f"{wh}/{l}", s, g, w, wh)


@rule("C15", "coincident-sizes", [(be, cs, d) for be in LOCAL for cs in FEAT[1:] for d in ("isotropy", "anisotropy")
                                  if d == "isotropy" or cs in ("batch1", "one-neighbour", "batch=neighbours")],
      "the alignment does not depend on which sizes coincide or are one")
def coincident(c, backend, case, d):
    s = S(backend)
    b, n, f = fsizes(case)
    env, a = setup(s, d, "columns", False, b, n, f, True)
    e = s.run(TSETUP + PROG, **env)
    for got, want, labs, wh in zip((e.pred, e.trn), specs(d, *a), LABELS, WHERE):
        for g, w, l in zip(s.get_list(got), want, labs):
            c.eq(f"{wh}/{l}", s, g, w, wh)


EQUAL = [(x, y) for k, x in enumerate("bnfrNM") for y in "bnfrNM"[k + 1:]] + [("b", "N", "M"), ("n", "f", "r"), ("b", "n", "f", "r", "N", "M")]


@rule("C15", "equal-sizes", [(be, eq, d) for be in LOCAL for eq in map("".join, EQUAL) for d in ("isotropy", "anisotropy") if d == "isotropy" or "f" not in eq],
      "the alignment does not depend on which of batch, neighbours, features, responses, training and test points are equally many")
def equal(c, backend, eq, d):
    s = S(backend)
    z = {x: dim("z") if x in eq else dim(x) for x in "bnfrNM"}
    env, a = setup(s, d, "columns", False, z["b"], z["n"], z["f"], True, z["r"], z["N"], z["M"])
    e = s.run(TSETUP + PROG, **env)
    for got, want, labs, wh in zip((e.pred, e.trn), specs(d, *a), LABELS, WHERE):
        for g, w, l in zip(s.get_list(got), want, labs):
            c.eq(f"{wh}/{l}", s, g, w, wh)


# ---------------------------------------------------------------- MPI partition
def ranks(P, prog, mk, gather=False):
    """analyse rank 0, then every other rank with the messages rank 0 sends to it;
    gather: a second round in which every allgather returns what the ranks contributed in the first"""
    all_ = None
    for rnd in range(2 if gather else 1):
        sent, out = [], []
        for r in range(P):
            s = S("mpi", world=(r, P))
            if r:
                s.I.inbox = [v for d, v in sent if d == r]
            s.I.gathered = None if all_ is None else [list(x) for x in all_]
            env, a = mk(s)
            e = s.run(prog, **env)
            if r == 0:
                sent = list(s.I.outbox)
            out.append((s, e, a))
        all_ = list(zip(*[s.I.gathers for s, _, _ in out]))
    return out


def rows_of(s, v):
    return int(A.shape(s.array(v))[0].const())


SHARES = ((1, 3), (2, 4), (2, 5), (3, 7), (3, 8), (4, 4))


def each_rank(c, res, P, k, items, want, labs, wh):
    """the chunks of the ranks, in rank order, are the rows of the serial tensors"""
    start, loads = 0, []
    for r, (s, e, a) in enumerate(res):
        got = items(s, e)
        cnt = rows_of(s, got[-1])
        loads.append(cnt)
        for g, w, l in zip(got, want(a, lambda i, o=start: i + const(o), const(cnt)), labs):
            c.eq(f"rank{r}/{wh}/{l}", s, g, w, wh)
        start += cnt
    c.check(f"{wh}/complete", start == k, f"{P} ranks hold {start} of {k} rows: {loads}", wh)
    c.check(f"{wh}/balanced", max(loads) - min(loads) <= 1, f"loads {loads}", wh)


@rule("C20", "rows", [(P, k, d, mv) for P, k in SHARES for d in ("isotropy", "anisotropy") for mv in (False, True)],
      "the rows held by the ranks, in rank order, are exactly the rows of the serial tensors, once each, and the ranks' loads differ by at most one")
def mpi_rows(c, P, k, d, mv):
    res = ranks(P, TSETUP + PROG, lambda s: setup(s, d, "columns", mv, const(k), dim("n"), dim("f"), True))
    for m, nm in enumerate(("pred", "trn")):
        each_rank(c, res, P, k, lambda s, e: s.get_list(getattr(e, nm)), lambda a, g, cnt: specs(d, *a, rows=g, count=cnt)[m], LABELS[m], WHERE[m])


@rule("C20", "parts", [(P, k) for P, k in SHARES],
      "every tensor-making function on its own distributes the same rows")
def mpi_parts(c, P, k):
    def mk(s):
        env, a = setup(s, "isotropy", "columns", False, const(k), dim("n"), dim("f"), True)
        noise, H = s.inp("noise", dim("N"))
        env.update(noise=noise)
        return env, a + (H,)
    res = ranks(P, TSETUP + """
from MuyGPyS.gp.deformation import DifferenceIsotropy
from MuyGPyS.gp.tensors import batch_features_tensor, make_heteroscedastic_tensor
iso = Isotropy(F2, length_scale=Parameter(1.0))
dif = DifferenceIsotropy(F2, length_scale=Parameter(1.0))
o = (iso.crosswise_tensor(TEST, train, ind, nn), iso.pairwise_tensor(train, nn), dif.crosswise_tensor(TEST, train, ind, nn),
     dif.pairwise_tensor(train, nn), batch_features_tensor(train, ind), make_heteroscedastic_tensor(noise, nn))
""", mk)

    def want(a, g, cnt):
        b, n, f, r, T, X, Y, I, NN, H = a
        cd = lambda i, j, q: T(I(g(i)), q) - X(NN(g(i), j), q)
        pd = lambda i, p, q, h: X(NN(g(i), p), h) - X(NN(g(i), q), h)
        return (Spec([cnt, n], lambda i, j: ssum(f, lambda q: nf.power(cd(i, j, q), 2))),
                Spec([cnt, n, n], lambda i, p, q: ssum(f, lambda h: nf.power(pd(i, p, q, h), 2))),
                Spec([cnt, n, f], cd), Spec([cnt, n, n, f], pd), Spec([cnt, f], lambda i, q: X(I(g(i)), q)),
                Spec([cnt, n], lambda i, j: H(NN(g(i), j))))
    each_rank(c, res, P, k, lambda s, e: s.get_list(e.o), want, ("Isotropy.crosswise_tensor", "Isotropy.pairwise_tensor", "DifferenceIsotropy.crosswise_tensor",
              "DifferenceIsotropy.pairwise_tensor", "batch_features_tensor", "make_heteroscedastic_tensor"), "tensors")


@rule("C20", "gather", [(P, k, nd) for P, k in SHARES for nd in (1, 2, 3)], "scattering a tensor and gathering the chunks gives the tensor back")
def mpi_gather(c, P, k, nd):
    def mk(s):
        x, X = s.inp("x", const(k), *[dim("p"), dim("q")][:nd - 1])
        return dict(x=x), (X,)
    res = ranks(P, """
from MuyGPyS._src.mpi_utils import _consistent_unchunk_tensor, _consistent_chunk_tensor
back = _consistent_unchunk_tensor(_consistent_chunk_tensor(x))
""", mk, gather=True)
    for r, (s, e, (X,)) in enumerate(res):
        c.eq(f"rank{r}", s, e.back, Spec(X.sizes, X), "_consistent_unchunk_tensor")


@rule("C20", "loads", [(P,) for P in range(1, 9)], "chunk sizes are non-negative, add up to the number of rows and differ by at most one")
def loads(c, P):
    for k in list(range(0, 4 * P + 2)):
        s = S("mpi", world=(0, P))
        e = s.run("from MuyGPyS._src.mpi_utils import _get_chunk_sizes\nz = _get_chunk_sizes(k, P)", k=k, P=P)
        z = [int(v) if isinstance(v, int) else int(s.array(v).body.const()) for v in s.get_list(e.z)]
        c.check(f"{k} rows", len(z) == P and sum(z) == k and min(z) >= 0 and max(z) - min(z) <= 1, f"chunk sizes {z}", "_get_chunk_sizes")
