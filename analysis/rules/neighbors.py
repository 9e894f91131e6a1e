"""C16: nearest-neighbour lookups; C17: training batches."""
from .common import *
from .. import arr as A
from ..values import ArrC, Ref, TopV
from .mpi import pick

NSETUP = "from MuyGPyS.neighbors import NN_Wrapper\n"
METHODS = ("exact", "hnsw")


def query(kind, X, N, f, row, k):
    """specification of the lookup result: (index, distance) functions of (row, position)"""
    tl = lambda: _lam2(N, f, X)
    static = {"exact": ("sk",), "hnsw": ("hnsw", "l2")}[kind]
    power = 2 if kind == "exact" else 1

    def op(name):
        return lambda i, j: nf.mkop(name, static, (tl(), _lam1(f, lambda q: row(i, q))), (j, k))
    ind, dst = op("nn_index"), op("nn_dist")
    return ind, (lambda i, j: nf.power(dst(i, j), power))


def _lam2(N, f, X):
    t1, t2 = nf.tmp(N), nf.tmp(f)
    return nf.mklam((t1, t2), X(nf.atom(t1), nf.atom(t2))) if f is not ONE else nf.mklam((t1,), X(nf.atom(t1), ZERO))


def _lam1(f, row):
    if f is ONE:
        return nf.mklam((), row(ZERO))
    t = nf.tmp(f)
    return nf.mklam((t,), row(nf.atom(t)))


def others(n, ind, own):
    """position of the j-th neighbour that is not the point itself"""
    def at(i, j):
        t = nf.tmp(n + ONE)
        return nf.mkop("argsort", (), (nf.mklam((t,), nf.mkeq(ind(i, nf.atom(t)), own(i))),), (j,))
    return at


def en(method):
    return ("hnswlib",) if method == "hnsw" else ()


@rule("C16", "queries", [(be, m, cs) for be in NT for m in METHODS for cs in ("generic", "one-feature", "flat", "one-neighbour", "one-sample")],
      "get_nns returns, for every query row, the nn_count nearest training rows and their distances (squared under the Euclidean metric), in lookup order")
def queries(c, backend, method, case):
    s = S(backend, enabled=en(method))
    n, f, M = dim("n"), dim("f"), dim("M")
    if case in ("one-feature", "flat"):
        f = ONE
    if case == "one-neighbour":
        n = ONE
    if case == "one-sample":
        M = ONE
    N = dim("N")
    train, X = s.inp("train", N, *([] if case == "flat" else [f]))
    test, T = s.inp("test", M, *([] if case == "flat" else [f]))
    x = (lambda i, q: X(i)) if case == "flat" else X
    t = (lambda i, q: T(i)) if case == "flat" else T
    e = s.run(NSETUP + "w = NN_Wrapper(train, n, nn_method=METHOD)\ni, dd = w.get_nns(test)\n", train=train, test=test, n=s.size(n), METHOD=method)
    ind, dst = query(method, x, N, f, t, n)
    c.eq("indices", s, e.i, Spec([M, n], ind), "NN_Wrapper.get_nns")
    c.eq("distances", s, e.dd, Spec([M, n], dst), "NN_Wrapper.get_nns")
    c.check("indices-type", s.array(e.i).dt == "int", "indices are not integers", "NN_Wrapper.get_nns")


@rule("C16", "batch-queries", [(be, m, cs) for be in NT for m in METHODS for cs in ("generic", "flat", "one-neighbour", "one-sample")],
      "get_batch_nns returns for every batch index its nn_count nearest other training rows: the point itself is excluded wherever the lookup puts it")
def batch_queries(c, backend, method, case):
    s = S(backend, enabled=en(method))
    n, f, M, N = dim("n"), dim("f"), dim("M"), dim("N")
    if case == "flat":
        f = ONE
    if case == "one-neighbour":
        n = ONE
    if case == "one-sample":
        M = ONE
    train, X = s.inp("train", N, *([] if case == "flat" else [f]))
    bi, B = s.inp("bi", M, dt="int")
    x = (lambda i, q: X(i)) if case == "flat" else X
    e = s.run(NSETUP + "w = NN_Wrapper(train, n, nn_method=METHOD)\ni, dd = w.get_batch_nns(bi)\n", train=train, bi=bi, n=s.size(n), METHOD=method)
    ind, dst = query(method, x, N, f, lambda i, q: x(B(i), q), n + ONE)
    pos = others(n, ind, B)
    c.eq("indices", s, e.i, Spec([M, n], lambda i, j: ind(i, pos(i, j))), "NN_Wrapper.get_batch_nns")
    c.eq("distances", s, e.dd, Spec([M, n], lambda i, j: dst(i, pos(i, j))), "NN_Wrapper.get_batch_nns")


@rule("C16", "options", [("exact",), ("hnsw",)], "lookup options given by the caller reach the lookup structure; the wrapper's own are not overridden")
def options(c, method):
    s = S("numpy", enabled=en(method))
    n, f, N = dim("n"), dim("f"), dim("N")
    train = s.inp("train", N, f)[0]
    test = s.inp("test", dim("M"), f)[0]
    given = dict(exact=dict(radius=2, algorithm="ball_tree", leaf_size=11, metric="minkowski", p=1, metric_params="given", n_jobs=3, n_neighbors=2),
                 hnsw=dict(space="ip", ef_construction=77, M=9, random_seed=5, max_elements=3))[method]
    s.run(NSETUP + "w = NN_Wrapper(train, n, nn_method=METHOD, " + ", ".join(f"{k}={v!r}" for k, v in given.items()) + ")\ni, dd = w.get_nns(test)\n",
          train=train, test=test, n=s.size(n), METHOD=method)
    ev = pick(s, "kneighbors" if method == "exact" else "knn_query")
    if not ev:
        return c.undecided("query", "the lookup structure is not queried")
    kw = dict(ev[0]["kw"], **ev[0].get("init", {}))
    own = {"n_neighbors": n + ONE, "max_elements": N}
    for q, v in given.items():
        if q in own:
            if q == "max_elements":
                c.eq(q, s, kw[q], own[q], "NN_Wrapper") if q in kw else c.bad(q, q + " is not set", "NN_Wrapper")
        elif q not in kw:
            c.bad(q, f"{q} is dropped", "NN_Wrapper")
        elif isinstance(v, str):
            c.check(q, kw[q] == v, f"{q} is {kw[q]}", "NN_Wrapper")
        else:
            c.eq(q, s, kw[q], const(v), "NN_Wrapper")


@rule("C16", "plain-distances", [("p1",), ("manhattan",)], "distances under another metric are left as the metric gives them")
def plain(c, metric):
    s = S("numpy")
    n, f, N, M = dim("n"), dim("f"), dim("N"), dim("M")
    train, X = s.inp("train", N, f)
    test, T = s.inp("test", M, f)
    kw = "p=1" if metric == "p1" else "metric='manhattan'"
    e = s.run(NSETUP + f"w = NN_Wrapper(train, n, {kw})\ni, dd = w.get_nns(test)\n", train=train, test=test, n=s.size(n))
    static = ("sk", ("p", "1")) if metric == "p1" else ("sk", ("metric", "manhattan"))
    c.eq("distances", s, e.dd, Spec([M, n], lambda i, j: nf.mkop("nn_dist", static, (_lam2(N, f, X), _lam1(f, lambda q: T(i, q))), (j, n))), "NN_Wrapper.get_nns")


@rule("C16", "rejected", [("unknown",), ("no-hnsw",)], "an unknown or unavailable lookup method is refused when the lookup is built")
def rejected(c, what):
    s = S("numpy")
    train = s.inp("train", dim("N"), dim("f"))[0]
    m, exc = {"unknown": ("brute-force", "NotImplementedError"), "no-hnsw": ("hnsw", "ModuleNotFoundError")}[what]
    c.raises(what, s, lambda: s.run(NSETUP + f"w = NN_Wrapper(train, 5, nn_method={m!r})\n", train=train), (exc,), "NN_Wrapper")


@rule("C16", "method-name", [("Exact",), ("HNSW",)], "the lookup method is chosen regardless of letter case")
def method_name(c, m):
    s = S("numpy", enabled=("hnswlib",))
    n, f, N, M = dim("n"), dim("f"), dim("N"), dim("M")
    train, X = s.inp("train", N, f)
    test, T = s.inp("test", M, f)
    e = s.run(NSETUP + f"w = NN_Wrapper(train, n, nn_method={m!r})\ni, dd = w.get_nns(test)\n", train=train, test=test, n=s.size(n))
    ind, dst = query(m.lower(), X, N, f, T, n)
    c.eq("indices", s, e.i, Spec([M, n], ind), "NN_Wrapper.get_nns")


# ---------------------------------------------------------------- C17
BSETUP = """
from MuyGPyS.optimize.batch import sample_batch, full_filtered_batch, sample_balanced_batch, get_balanced_batch
class Lookup:
    def get_batch_nns(self, ind):
        return tab[ind, :], dist[ind, :]
w = Lookup()
"""


def lookup(s, N, n):
    tab, T = s.inp("tab", N, n, dt="int")
    labels, Lb = s.inp("labels", N, dt="int")
    return dict(tab=tab, dist=s.inp("dist", N, n)[0], labels=labels), T, Lb


def row_aligned(c, s, ind, nn, T, n, where):
    """row i of the neighbour indices is the lookup's row of the i-th batch index"""
    a = s.array(ind)
    if a is None or len(a.dims) != 1:
        return c.bad("indices", f"batch indices are {a}", where)
    at = lambda i: A.at_flat(a, [i])
    c.eq("rows", s, nn, Spec([A.sizeof(a.dims[0]), n], lambda i, j: T(at(i), j)), where)
    c.check("type", a.dt == "int", "batch indices are not integers", where)


@rule("C17", "filtered", [(be, cs) for be in NT for cs in ("generic", "one-neighbour", "square")],
      "the filtered batch keeps exactly the points whose neighbours do not all share one label, each with its own neighbours")
def filtered(c, backend, case):
    s = S(backend)
    N, n = dim("N"), ONE if case == "one-neighbour" else dim("n")
    if case == "square":
        n = N
    env, T, Lb = lookup(s, N, n)
    e = s.run(BSETUP + """
import numpy as np
o, nn = full_filtered_batch(w, labels)
lab = labels[tab]
want = np.arange(len(labels))[np.max(lab, axis=1) != np.min(lab, axis=1)]
""", **env)
    row_aligned(c, s, e.o, e.nn, T, n, "full_filtered_batch")
    if case != "one-neighbour":
        c.eq("members", s, e.o, s.array(e.want), "full_filtered_batch")


@rule("C17", "sampled", [(be, b, N) for be in NT for b, N in ((3, 7), (6, 7), (7, 7), (9, 7), (1, 2))],
      "the sampled batch has batch_count distinct training points (all of them, in order, when there are no more), each with its own neighbours")
def sampled(c, backend, B, N):
    s = S(backend)
    n = dim("n")
    env, T, _ = lookup(s, const(N), n)
    e = s.run(BSETUP + f"o, nn = sample_batch(w, {B}, {N})\n", **env)
    row_aligned(c, s, e.o, e.nn, T, n, "sample_batch")
    size = A.shape(s.array(e.o))[0].const()
    c.check("size", size == min(B, N), f"{size} batch points, {min(B, N)} specified", "sample_batch")
    if B >= N:
        c.eq("everything", s, e.o, Spec([const(N)], lambda i: i), "sample_batch")
        return
    ch = [x for x in pick(s, "random") if x["what"] == "choice"]
    if len(ch) != 1:
        return c.undecided("draw", "not a single choice")
    c.check("distinct", ch[0]["replace"] is False, "batch points are drawn with replacement", "sample_batch")
    c.eq("candidates", s, s.I.new_arr(ch[0]["cand"]), Spec([const(N)], lambda i: i), "sample_batch")


@rule("C17", "sampled-symbolic", [(be,) for be in NT], "for every training size above the batch size the draw is batch_count points out of all, without replacement")
def sampled_symbolic(c, backend):
    s = S(backend)
    n = dim("n")
    B = dim("B")
    N = B + dim("extra")
    env, T, _ = lookup(s, N, n)
    e = s.run(BSETUP + "o, nn = sample_batch(w, B, N)\n", B=s.size(B), N=s.size(N), **env)
    row_aligned(c, s, e.o, e.nn, T, n, "sample_batch")
    ch = [x for x in pick(s, "random") if x["what"] == "choice"]
    if len(ch) != 1:
        return c.undecided("draw", "not a single choice")
    c.check("distinct", ch[0]["replace"] is False, "batch points are drawn with replacement", "sample_batch")
    c.eq("candidates", s, s.I.new_arr(ch[0]["cand"]), Spec([N], lambda i: i), "sample_batch")
    c.eq("count", s, s.size(A.shape(s.array(e.o))[0]), B, "sample_batch")


@rule("C17", "balanced", [(be,) for be in NT],
      "the balanced batch draws, for every class, distinct members of that class whose neighbours are not all alike: an equal share, or all there are")
def balanced(c, backend):
    s = S(backend)
    n, N, B = dim("n"), dim("N"), dim("B")
    env, T, Lb = lookup(s, N, n)
    e = s.run(BSETUP + "o, nn = sample_balanced_batch(w, labels, B)\n", B=s.size(B), **env)
    row_aligned(c, s, e.o, e.nn, T, n, "sample_balanced_batch")
    ch = [x for x in pick(s, "random") if x["what"] == "choice"]
    if len(ch) != 1:
        return c.undecided("draw", "not a single choice per class")
    ch = ch[0]
    c.check("distinct", ch["replace"] is False, "batch points are drawn with replacement", "sample_balanced_batch")
    # the result is made of one piece per class; what the class's draw selects there is its set of candidates
    whole = s.array(e.o)
    res = whole.body.single()
    classes = A.shape(s.array(s.run("import numpy as np\nclasses = np.unique(labels)\n", **env).classes))[0]
    if len(whole.dims[0]) == 2 and lift(whole.dims[0][0]) == lift(classes):
        # equally long pieces
        t, u = nf.tmp(whole.dims[0][0]), nf.tmp(whole.dims[0][1])
        (ft, fu), = A.free_idx(whole.dims)
        body = nf.subst(nf.subst(whole.body, {ft.single(): atom(t)}), {fu.single(): atom(u)})
        size = whole.dims[0][1]
    elif res is None or res.kind != "op" or res.args[0] != "pieces":
        return c.undecided("pieces", "the batch is not a sequence of one piece per class")
    else:
        count, value = res.args[2]
        (t, u), body = value.open()
        (t1,), size = count.open()
        size = nf.subst(size, {t1: atom(t)})
    k = nf.sym("class#")
    nf.INT_ARRAYS.add("class#")
    draws = [x for x in nf.atoms_of(body) if x.kind == "op" and x.args[0] == "choice"]
    if not draws or any(d.args[1] != ch["tag"] or d.args[3][0] is not draws[0].args[3][0] or d.args[3][2] is not atom(u) for d in draws):
        return c.undecided("candidates", "not a single draw per class")
    pool = nf.subst(draws[0].args[3][0], {t: k})
    dims = (A.axis(pool),)
    f, = A.free_idx(dims)
    body = nf.subst(nf.map_atoms(body, lambda x: A.flat(dims[0], f) if x in draws else None), {t: k})
    got = s.array(e.o).with_(dims=dims, body=body, view=None, root=None)
    size = nf.subst(size, {t: k})
    e2 = s.run("""
import numpy as np
classes = np.unique(labels)
lab = labels[tab]
mixed = np.max(lab, axis=1) != np.min(lab, axis=1)
want = np.where(np.logical_and(mixed, labels == classes[k]))[0]
share = min(len(want), int(B / len(classes)))
""", k=s.num("class#", kind="int"), B=s.size(B), **env)
    c.eq("candidates", s, s.I.new_arr(got), s.array(e2.want), "sample_balanced_batch")
    c.eq("share", s, s.size(size), s.array(e2.share), "sample_balanced_batch")


@rule("C17", "dispatch", [(be, N) for be in NT for N in (4, 5, 6)], "a balanced batch of everything is the filtered batch; otherwise it is sampled")
def dispatch(c, backend, N):
    s = S(backend)
    n = dim("n")
    env, T, _ = lookup(s, const(N), n)
    e = s.run(BSETUP + "o, nn = get_balanced_batch(w, labels, 5)\nf, fn = full_filtered_batch(w, labels)\n", **env)
    row_aligned(c, s, e.o, e.nn, T, n, "get_balanced_batch")
    ch = [x for x in pick(s, "random") if x["what"] == "choice"]
    if N <= 5:
        c.eq("all", s, e.o, s.array(e.f), "get_balanced_batch")
        c.check("no-draw", not ch, "points are drawn although all fit in the batch", "get_balanced_batch")
    else:
        c.check("no-filter-only", bool(ch) or any(x["kind"] == "random" for x in s.I.events), "the batch is not limited to batch_count", "get_balanced_batch")
