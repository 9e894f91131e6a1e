"""C19: under MPI every rank takes part in the same collectives and ends with the same global results."""
from .common import *
from .loss import LSETUP
from .optim import OPSETUP, MODELS, OPTS, L, build, done, pick
from .. import arr as A
from ..values import ArrC, Ref, TopV

LOSSES = ("mse_fn", "lool_fn", "pseudo_huber_fn", "looph_fn", "cross_entropy_fn")
AGREED = ("allreduce", "bcast")


def local_parts(p, local):
    """the rank-local quantities of a term that no collective combines"""
    bad, stack, seen = set(), [p], set()
    while stack:
        x = stack.pop()
        if isinstance(x, nf.Lam):
            x = x.body
        if x in seen:
            continue
        seen.add(x)
        for m in x.terms:
            for a, _ in m.factors:
                if a.kind == "op" and a.args[0] in AGREED:
                    continue
                nm = str(a.args[0]) if a.kind in ("el", "sym", "dim", "op", "bool") and a.args else ""
                if nm in local or "rand" in nm or nm in ("rank",) or a.kind == "op" and nm in ("choice", "ranked"):
                    bad.add(nm)
                stack.extend(nf._children(a.args))
    return bad


def agree(c, label, s, v, local, where):
    """v has the same value on every rank"""
    v = s.I.resolve(v)
    if v is None:
        return c.bad(label, "every rank makes its own choice: nothing is agreed on", where)
    if isinstance(v, TopV):
        return c.undecided(label, "value is outside the analysis: " + v.why)
    a = s.array(v)
    if a is None:
        return c.ok(label)
    bad = local_parts(a.body, local)
    c.check(label, not bad, f"differs from rank to rank: it depends on the rank-local {sorted(bad)} outside any collective", where)


def seq(s):
    out = []
    for x in s.I.events:
        if x["kind"] == "comm" and x["op"].lower() not in ("send", "recv"):
            kw = {q: str(v) for q, v in x["kwargs"].items() if q in ("root", "op")}
            out.append((x["op"], tuple(sorted(kw.items()))))
    return out


def matched(c, P, run, where):
    """the same collectives in the same order on every rank, no message lost"""
    sent, first = [], None
    for r in range(P):
        s = S("mpi", world=(r, P))
        if r:
            s.I.inbox = [v for d, v in sent if d == r]
        run(s)
        if r == 0:
            sent, first = list(s.I.outbox), seq(s)
            c.check("reached", True, "", where)
            continue
        q = seq(s)
        c.check(f"rank{r}/collectives", q == first, f"rank 0 enters {len(first)} collectives, rank {r} enters {len(q)}: first difference at "
                f"{next((i for i, (x, y) in enumerate(zip(first, q)) if x != y), min(len(first), len(q)))}", where)
        c.check(f"rank{r}/messages", not s.I.inbox, f"{len(s.I.inbox)} messages to rank {r} are never received", where)
        c.check(f"rank{r}/sends", not s.I.outbox, f"rank {r} sends {len(s.I.outbox)} messages nobody receives", where)


@rule("C19", "collectives", [(P, st, rows) for P, rows in ((2, 7), (3, 7), (3, 1), (10, 13)) for st in ("predict", "loss", "scale", "scale-multivariate", "sampled-parameters")],
      "every rank enters the same collectives in the same order, and every message sent is received")
def collectives(c, P, stage, rows):
    def run(s):
        n, f = dim("n"), dim("f")
        train = s.inp("train", dim("N"), f)[0]
        ind, nn = s.inp("ind", const(rows), dt="int")[0], s.inp("nn", const(rows), n, dt="int")[0]
        y = s.inp("y", dim("N"), *([const(2)] if stage == "scale-multivariate" else []))[0]
        s.run(LSETUP + """
def kern(l):
    return dict(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(l))), scale=SCALE)
SCALE = AnalyticScale() if STAGE != "scale" else DownSampleScale(down_count=DOWN, iteration_count=3)
model = MultivariateMuyGPS(kern(1.0), kern(2.0)) if STAGE == "scale-multivariate" else MuyGPS(**kern(1.0))
cr, pw, t, ty = model.make_train_tensors(ind, nn, train, y)
if STAGE == "sampled-parameters":
    p = Parameter("sample", (0.5, 2.0))
    q = Parameter("log_sample", (0.5, 2.0))
elif STAGE.startswith("scale"):
    for _ in range(2):
        model = model.optimize_scale(pw, ty) if STAGE == "scale-multivariate" else model.optimize_scale(model.kernel(pw), ty)
else:
    K, k = model.kernel(pw), model.kernel(cr)
    m, v = model.posterior_mean(K, k, ty), model.posterior_variance(K, k)
    if STAGE == "loss":
        sc = model.scale()
        o = (mse_fn(m, t), lool_fn(m, t, v, sc), pseudo_huber_fn(m, t), looph_fn(m, t, v, sc))
        o2 = cross_entropy_fn(m2, t2)
""", STAGE=stage, train=train, ind=ind, nn=nn, y=y, DOWN=2, m2=s.inp("m2", dim("b"), const(2))[0], t2=s.inp("t2", dim("b"), const(2))[0])
    matched(c, P, run, stage)


@rule("C19", "optimisation", [(P, o, sc) for P in (2, 3) for o in OPTS for sc in ("fixed", "analytic")],
      "an optimiser run evaluates and stops in step on all ranks")
def optimisation(c, P, opt, scale):
    def run(s):
        env = build(s, "flat")
        s.run(OPSETUP + f"""
model = MuyGPS(RBF(deformation=Isotropy(F2, Parameter(1.0, (0.5, 2.0)))), scale={'AnalyticScale()' if scale == 'analytic' else 'FixedScale()'})
out = {opt}(model, t, y, cr, pw, loss_fn=lool_fn)
""", **env)
        done()
    matched(c, P, run, opt)


@rule("C19", "agreement", [(l,) for l in LOSSES], "every loss of a distributed batch is the same number on all ranks")
def agreement(c, loss):
    s = S("mpi")
    b, r = dim("b"), dim("r")
    col = [r] if loss != "looph_fn" else []
    p, t, v = s.inp("p", b, *col)[0], s.inp("t", b, *col)[0], s.inp("v", b, *col)[0]
    sc = s.inp("sc", r)[0] if col else s.num("sc", positive=True)
    rest = ", v, sc" if loss.startswith("lool") or loss.startswith("looph") else ""
    e = s.run(LSETUP + f"o = {loss}(p, t{rest})\n", p=p, t=t, v=v, sc=sc)
    agree(c, loss, s, e.o, {"p", "t", "v", "b"}, loss)


@rule("C19", "scale-agreement", [(k, mv) for k in ("analytic", "down") for mv in (False, True)], "an optimised scale is the same number on all ranks")
def scale_agreement(c, kind, mv):
    s = S("mpi")
    b, n = dim("b"), dim("n")
    K, ty = s.inp("K", b, n, n, sym=(1, 2))[0], s.inp("ty", b, n, *([const(2)] if mv else []))[0]
    pw = s.inp("pw", b, n, n, sym=(1, 2))[0]
    e = s.run(LSETUP + """
def mk():
    return AnalyticScale() if KIND == "analytic" else DownSampleScale(down_count=2, iteration_count=2)
def kern(l):
    return dict(kernel=RBF(deformation=Isotropy(F2, length_scale=Parameter(l))), scale=mk())
if MV:
    model = MultivariateMuyGPS(kern(1.0), kern(2.0)).optimize_scale(pw, ty)
else:
    model = MuyGPS(**kern(1.0)).optimize_scale(K, ty)
o = [m.scale() for m in (model.models if MV else [model])]
""", KIND=kind, MV=mv, K=K, ty=ty, pw=pw)
    for k, v in enumerate(s.get_list(e.o)):
        agree(c, f"{kind}/{k}", s, v, {"K", "ty", "pw", "b"}, "optimize_scale")


@rule("C19", "random-agreement", [("sample",), ("log_sample",)], "a randomly sampled start value is the same on all ranks")
def random_agreement(c, how):
    s = S("mpi")
    e = s.run(SETUP + f"p = Parameter('{how}', (0.5, 2.0))\nv = p()\n")
    agree(c, how, s, e.v, set(), "Parameter._set_val")


@rule("C19", "search-agreement", [(o, q) for o in OPTS for q in ("default", "given", "none")], "all ranks search the same points in the same order")
def search_agreement(c, opt, seed):
    s = S("mpi")
    env = build(s, "flat")
    kw = {"given": ", random_state=3", "none": ", random_state=None"}.get(seed, "") if opt.startswith("Bayes") else ""
    s.run(OPSETUP + f"""
model = MuyGPS(RBF(deformation=Isotropy(F2, Parameter(1.0, (0.5, 2.0)))))
out = {opt}(model, t, y, cr, pw, loss_fn=lool_fn{kw})
""", **env)
    local = {"t", "y", "cr", "pw", "b"}
    if opt.startswith("Bayes"):
        init = pick(s, "bayes_init")
        if not init:
            return c.undecided("search", "BayesianOptimization is not reached")
        agree(c, "random-state", s, init[0]["kwargs"].get("random_state"), local, "_bayes_opt_optimize")
        if seed == "given":
            c.eq("given", s, init[0]["kwargs"].get("random_state"), const(3), "_bayes_opt_optimize")
    vals = pick(s, "objective")
    if not vals:
        return c.undecided("objective", "the objective is not evaluated")
    agree(c, "objective", s, vals[-1]["value"], local, opt)
    done()
