"""Command line driver:  python3 -m analysis C01 [--tier quick|thorough]

Runs every rule registered for a property over the current source tree,
writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit 0: nothing broken; 1: violation; 2: the check could not answer.
"""
import gc
import importlib
import json
import os
import pickle
import pkgutil
import resource
import selectors
import signal
import sys
import time
import traceback
from . import nf, peval
from .nf import ONE, ZERO
from .values import *
from .arr import Unknown
from . import arr as A

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUYGPS_SRC", "/repo/src")
REG = {}


class Rule:
    def __init__(self, prop, name, fn, variants, doc, thorough, equal):
        self.prop, self.name, self.fn, self.variants, self.doc, self.thorough, self.equal = prop, name, fn, variants, doc, thorough, equal


def rule(prop, name, variants=((),), doc="", thorough=False, equal=True):
    """variants: iterable of argument tuples for the rule function; equal: the specification also holds for sizes that coincide"""
    def deco(fn):
        REG.setdefault(prop, []).append(Rule(prop, name, fn, list(variants), doc or (fn.__doc__ or "").strip(), thorough, equal))
        return fn
    return deco


class Stop(Exception):
    pass


class Ctx:
    """collects the obligations of one property"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier if tier in LIMIT else "quick"
        self.started = time.time()
        self.obl = []  # (key, status, detail)
        self.analysed, self.calls = set(), 0
        self.cur = ""
        self.functions = set()

    def add(self, label, status, detail="", where=""):
        self.obl.append(dict(key=f"{self.cur}:{label}", status=status, detail=detail, where=where))

    def ok(self, label):
        self.add(label, "discharged")

    def undecided(self, label, why):
        self.add(label, "undecided", str(why)[:600])

    def bad(self, label, msg, where=""):
        self.add(label, "violated", msg, where)

    def check(self, label, cond, msg, where=""):
        if cond is None:
            self.undecided(label, msg)
        elif cond:
            self.ok(label)
        else:
            self.bad(label, msg, where)

    # -- equalities -----------------------------------------------------------
    def eq(self, label, s, got, want, where="", dtype=None):
        """got: abstract value or ArrC; want: Spec / ArrC / number / Poly"""
        from .scenario import Spec
        try:
            g = got if isinstance(got, ArrC) else (A.scalar(got) if isinstance(got, nf.Poly) else s.array(got))
            if isinstance(want, Spec):
                want = want.arr
            elif not isinstance(want, ArrC):
                want = A.scalar(nf.lift(want)) if isinstance(want, (nf.Poly, int, float, nf.Fraction)) else s.array(want)
            if g is None:
                return self.bad(label, f"result is {s.I.describe(got)}, not a numeric array", where)
            if len(g.dims) != len(want.dims) or any(
                    s.I.simp_deep(a) is not s.I.simp_deep(b) for a, b in zip(A.shape(g), A.shape(want))):
                if any(tainted(x) for x in A.shape(g)):
                    return self.undecided(label, "shape unknown")
                return self.bad(label, f"shape is ({', '.join(map(nf.show, A.shape(g)))}), specified "
                                f"({', '.join(map(nf.show, A.shape(want)))})", where)
            if g.dims != want.dims:
                f = A.free_idx(want.dims)
                idx = [f[i] if x == y else A.split_index(A.flat(y, f[i]), x)
                       for i, (x, y) in enumerate(zip(g.dims, want.dims))]
                gb = A.at(g, idx)
            else:
                gb = g.body
            gb, wb = s.I.simp_deep(gb), s.I.simp_deep(want.body)
            if gb is wb or nf.equal(gb, wb):
                return self.ok(label)
            t = tainted(gb) or tainted(wb)
            if t:
                return self.undecided(label, t)
            if tabulate(gb, wb):
                return self.ok(label)
            if peval.separate(gb, wb, list(s.I.facts.items())) is False:
                return self.undecided(label, f"the normal forms differ but agree at every valuation tried: {canon(gb)[:200]} ; {canon(wb)[:200]}")
            self.bad(label, f"value is {canon(gb)[:700]} ; specified {canon(wb)[:700]}", where)
        except (Unknown, nf.Overflow) as e:
            self.undecided(label, repr(e))

    def eq_known(self, label, s, got, want, defect, msg, where=""):
        """as eq; a value that is exactly the recorded defective one is reported as msg (known findings match on it)"""
        n = len(self.obl)
        self.eq(label, s, got, want, where)
        if self.obl[-1]["status"] != "violated":
            return
        self.eq(label, s, got, defect, where)
        last = self.obl.pop()
        if last["status"] == "discharged":
            self.obl[n]["detail"] = msg

    def raises(self, label, s, fn, exc=None, where=""):
        """fn must definitely raise"""
        try:
            fn()
        except AbsRaise as e:
            if exc and e.exc not in exc and not unknown_exc(e):
                return self.bad(label, f"raises {e.exc} ({e.msg}), specified {'/'.join(exc)}", where or e.where)
            return self.ok(label)
        except Unknown as e:
            return self.undecided(label, repr(e))
        self.bad(label, f"no exception is raised; specified {'/'.join(exc or ('an exception',))}", where)

    def noraise(self, label, s, since=0, allow=()):
        """no reachable raise was recorded on a condition that can hold"""
        worst = None
        for e in s.I.events[since:]:
            if e["kind"] != "raise" or e["exc"] in allow or e["exc"] in ("Unreachable", "StopIteration"):
                continue
            pc = s.I.simp_deep(e["pc"])
            if pc.const() == 0:
                continue
            t = tainted(pc)
            if t:
                worst = worst or ("u", t)
                continue
            return self.bad(label, f"raises {e['exc']} ({e['msg']}) when {canon(pc)[:300]}", e["where"])
        self.ok(label)


def tabulate(p, q):
    """equality by cases over the free indices of small constant range"""
    ixs = [a for a in p.ixs | q.ixs if nf.ixsize(a).const() is not None and nf.ixsize(a).const() <= 16]
    cases = [{}]
    for a in ixs:
        cases = [dict(d, **{}) | {a: nf.const(v)} for d in cases for v in range(int(nf.ixsize(a).const()))]
        if len(cases) > 128:
            return False
    if not ixs:
        return False
    for d in cases:
        x, y = nf.subst(p, d), nf.subst(q, d)
        if x is not y and not nf.equal(x, y):
            return False
    return True


def unknown_exc(e):
    return False


APPROX = ("chol", "eig", "svd", "qr", "opaque", "pinv", "lstsq")


def tainted(p):
    """a reason why the normal form is not trusted, or None"""
    for a in nf.atoms_of(p):
        if a.kind == "sym" and str(a.args[0]).startswith("top#"):
            return "unknown value " + str(a.args[0])
        if a.kind == "bool" and str(a.args[0]).startswith("top#"):
            return "unknown condition " + str(a.args[0])
        if a.kind == "op" and a.args[0] in APPROX:
            return "operator outside the theory: " + a.args[0]
    return None


def canon(p):
    """printed form with a deterministic order"""
    s = nf.show(p, 100000)
    return s


class TimeUp(BaseException):
    pass


def _alarm(*_):
    raise TimeUp()


JOBS = max(1, min(8, len(os.sched_getaffinity(0))))
LIMIT = dict(quick=(120, 560), thorough=(200, 780))


def scenario_guard(c, label, fn):
    """run fn(); map analyser outcomes to obligations"""
    from .scenario import Vanished
    per, whole = LIMIT[c.tier]
    left = min(per, whole - (time.time() - c.started))
    if left <= 1:
        return c.undecided(label, "time budget of the check used up")
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, left)
    try:
        fn()
        signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        c.undecided(label, f"no answer within {left:.0f} s")
    except MemoryError:
        c.undecided(label, "no answer within the memory limit")
    except AbsRaise as e:
        c.bad(label, f"raises {e.exc}: {e.msg}", e.where or "")
    except Unknown as e:
        c.undecided(label, repr(e))
    except nf.Overflow as e:
        c.undecided(label, repr(e))
    except Stop:
        pass
    except Vanished:
        raise
    except RecursionError:
        c.undecided(label, "analyser recursion limit")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.undecided(label, f"internal: {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        if os.environ.get("ANALYSIS_DEBUG"):
            print("".join(traceback.format_exc().splitlines(True)[-7:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def load_rules():
    from . import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module("analysis.rules." + m.name)


def known_file():
    """lines   known: property=C01 | key=<obligation> | match=<text> :: what fails
               fixed: property=C01 <commit> <what failed>      (informative)"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if not line.startswith("known: "):
                    continue
                head, what = line[7:].split(" :: ", 1)
                d = dict(property="", key="", match="", what=what.strip())
                for part in head.split("|"):
                    k, _, v = part.strip().partition("=")
                    d[k] = v
                out.append(d)
    return out


def _scenario(prop, tier, r, v, started, verbose):
    """runs in a child process: one scenario from a pristine state"""
    from . import scenario
    from .scenario import Vanished
    c = Ctx(prop, tier)
    c.started = started
    made = []
    orig = scenario.S.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        made.append(self)
    scenario.S.__init__ = init
    vanished = None
    c.cur = r.name + ("/" + "/".join(str(x) for x in v) if v else "")
    t = time.time()
    try:
        cur = c.cur
        scenario_guard(c, "scenario", lambda: r.fn(c, *v))
        if not c.obl:
            c.undecided("scenario", "no obligation produced")
        # the scenario's sizes are in general position; where the program asked whether two of them are equal,
        # examine the case that they are
        for a, b in sorted(nf.ASSUMED, key=str) if r.equal else ():
            c.cur = f"{cur}[{a}={b}]"
            nf.ALIAS = {a: nf.const(b) if isinstance(b, int) else b}
            scenario_guard(c, "scenario", lambda: r.fn(c, *v))
    except Vanished as e:
        vanished = f"{c.cur}: {e}"
    an, fn, calls = set(), set(), 0
    for s in made:
        an |= s.I.analysed
        fn |= s.I.fnseen
        calls += s.I.calls
    return dict(cur=c.cur, obl=c.obl, vanished=vanished, analysed=an, functions=fn, calls=calls, secs=time.time() - t)


def _spawn(task):
    """fork a child for one scenario; (pid, read end of its answer)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        data = pickle.dumps(_scenario(*task))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        code = 0
    except MemoryError:
        code = 3
    finally:
        sys.stdout.flush()
        os._exit(code)


def run_property(prop, tier, verbose=False, only=None):
    """every scenario in its own forked process (deterministic: no state is shared), JOBS at a time"""
    c = Ctx(prop, tier)
    vanished, tasks = [], []
    for r in REG.get(prop, []):
        if r.thorough and tier != "thorough":
            continue
        for v in r.variants:
            cur = r.name + ("/" + "/".join(str(x) for x in v) if v else "")
            if not only or only in cur:
                tasks.append((r, v, cur))
    from .interp import preparse
    preparse(SRC)
    gc.freeze()
    live, done, nxt = {}, {}, 0
    sel = selectors.DefaultSelector()
    while nxt < len(tasks) or live:
        while nxt < len(tasks) and len(live) < JOBS:
            r, v, cur = tasks[nxt]
            if LIMIT[c.tier][1] - (time.time() - c.started) <= 1:
                done[nxt] = dict(cur=cur, obl=[dict(key=f"{cur}:scenario", status="undecided", where="",
                                                    detail="time budget of the check used up")],
                                 vanished=None, analysed=(), functions=(), calls=0, secs=0)
            else:
                pid, fd = _spawn((prop, c.tier, r, v, c.started, verbose))
                live[fd] = (pid, nxt, bytearray())
                sel.register(fd, selectors.EVENT_READ)
            nxt += 1
        if not live:
            break
        for key, _ in sel.select():
            pid, k, buf = live[key.fd]
            part = os.read(key.fd, 1 << 20)
            if part:
                buf += part
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            del live[key.fd]
            os.waitpid(pid, 0)
            try:
                done[k] = pickle.loads(bytes(buf))
            except Exception:
                cur = tasks[k][2]
                done[k] = dict(cur=cur, obl=[dict(key=f"{cur}:scenario", status="undecided", where="",
                                                  detail="the analysis of this scenario ended early (memory)")],
                               vanished=None, analysed=(), functions=(), calls=0, secs=0)
            if verbose:
                print(f"  {done[k]['cur']}: {len(done[k]['obl'])} obligations {done[k]['secs']:.2f}s")
    for k in range(len(tasks)):
        d = done[k]
        c.obl += d["obl"]
        c.analysed |= set(d["analysed"])
        c.functions |= set(d["functions"])
        c.calls += d["calls"]
        if d["vanished"]:
            vanished.append(d["vanished"])
    return c, vanished


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in argv
    only = None
    props = []
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == "--tier":
            tier = argv[i + 1]
            i += 1
        elif a == "--only":
            only = argv[i + 1]
            i += 1
        elif not a.startswith("-"):
            props.append(a)
        i += 1
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    load_rules()
    if props == ["all"]:
        props = sorted(REG)
    rc = 0
    for p in props:
        r = one(p, tier, verbose, only)
        rc = 1 if r == 1 else (rc or r)
    return rc


def one(prop, tier, verbose=False, only=None):
    t0 = time.time()
    if prop not in REG:
        print(f"no rule for {prop}", file=sys.stderr)
        return 2
    c, vanished = run_property(prop, tier, verbose, only)
    known = {k["key"]: k for k in known_file() if k["property"] == prop}
    viol, found = [], []
    for o in c.obl:
        if o["status"] == "violated":
            k = known.get(o["key"])
            if k and k.get("match", "") in o["detail"]:
                found.append((o, k))
            else:
                viol.append(o)
    dis = [o for o in c.obl if o["status"] == "discharged"]
    und = [o for o in c.obl if o["status"] == "undecided"]
    for t in dict.fromkeys(k["what"] for _, k in found):
        print(f"KNOWN-FINDING: property={prop} {t}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = f"evidence/{prop}.violations.json"
    full = os.path.join(HERE, replay)
    if viol:
        with open(full, "w") as f:
            json.dump(viol, f, indent=1)
    elif os.path.exists(full):
        os.remove(full)
    rel = sorted(os.path.relpath(p, os.path.dirname(SRC)) for p in c.analysed)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=dict(
                  explanation="Static analysis of the current source tree: each rule interprets the library abstractly "
                  "(symbolic arrays, sizes and hyperparameters; joins at branches) and compares the derived value numbers "
                  "or effects with a specification. Nothing of the library is executed.",
                  rules=[dict(rule=r.name, variants=len(r.variants), what=r.doc) for r in REG[prop]
                         if not r.thorough or tier == "thorough"],
                  obligations=len(c.obl), discharged=len(dis), undecided=len(und), known_findings=len(found),
                  undecided_list=[(o["key"], o["detail"]) for o in und][:200],
                  discharged_samples=[o["key"] for o in dis][:400],
                  modules_analysed=len(rel), module_list=rel, functions_analysed=len(c.functions),
                  function_list=sorted(c.functions)[:600],
                  calls_interpreted=c.calls),
              assumptions=["the analyser's model of numpy/torch/jax/sklearn operations", "exact (real) arithmetic"],
              violations=len(viol), wall_s=round(time.time() - t0, 3))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        for o in und:
            print("  UNDECIDED", o["key"], o["detail"])
    for o in viol[:40]:
        print(f"VIOLATION property={prop} replay={replay} rule={o['key']} at {o['where']}: {o['detail'][:1500]}")
    print(f"{prop}: {len(c.obl)} obligations, {len(dis)} discharged, {len(und)} undecided, {len(found)} known, "
          f"{len(viol)} violated; {len(rel)} modules, {len(c.functions)} functions, {time.time() - t0:.1f}s")
    if viol:
        return 1
    if vanished:
        print("cannot answer: " + "; ".join(vanished[:5]), file=sys.stderr)
        return 2
    return 0

