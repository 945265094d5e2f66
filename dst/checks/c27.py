"""C27: a shorter run is the beginning of a longer one, memoryless solvers continue exactly after an interruption, and watching a run does not change it."""
import hashlib

import numpy as np

from dst import seams, world
from dst.checks import c15
from dst.core import GUARD, InjectedFault, Violation, hx

RUNS = {"quick": 7000, "thorough": 80000}
RULE = ("a run draws a solver and a problem (optionally with oracles that answer NaN or infinity in part of the space, decided by the point), executes it with a large budget and a small tolerance, then again with a "
        "smaller budget or a looser tolerance and compares call by call; memoryless solvers are also interrupted (exception, cancellation, budget) up to four times and restarted from the last iterate the "
        "callback saw; runs are repeated without callback, with a Trace, more verbose or with recorded certificates; non-trivial: the shorter run was really shorter, an interruption happened before the end, or the run was watched differently")
REAL = ["all nine solvers", "losses, penalties, constraint sets, copt.tv_prox", "copt.utils"]
STUB = ["user callback and oracle wrappers (also non-finite answers as a function of the point)", "NumPy's global generator (sampling policies; both runs get the same order)"]
ASSUMPTIONS = ["memoryless: proximal gradient (plain) with a user step, vanilla Frank-Wolfe with DR or a step policy of the current state, SVRG at pass boundaries, three-operator splitting and primal-dual are not",
               "step policies of the user depend on the iteration state only"]
LEVEL_NOTE = "seeded search over budgets, tolerances and interruption points with bitwise comparison of iterates and oracle calls; no completeness claim"
setup = c15.setup

START = ("pgd", "apgd")  # callback before the step
BAD = [np.nan, np.inf, -np.inf]


def canon(a):
    a = np.array(a, dtype=float)
    if a.size:
        a[np.isnan(a)] = np.nan
    return a.tobytes()


class Tape:
    """Every call of user code: name, arguments and answer."""

    def __init__(self, run, spoil=None, limit=20000, stop=None):
        self.run, self.spoil, self.limit, self.stop = run, spoil, limit, stop
        self.ev = []
        self.xs = []

    def __call__(self, name, fn, *a, **k):
        GUARD.reset()
        n = len(self.ev)
        if n > self.limit:
            raise Enough()
        h = hashlib.sha256(name.encode())
        if name in ("callback", "step"):
            x = np.array(a[0]["x"], dtype=float)
            h.update(canon(x))
            if name == "callback":
                self.xs.append(x)
        else:
            for v in a:
                if isinstance(v, (np.ndarray, float, np.generic)):
                    h.update(canon(v))
        if self.stop is not None and self.stop == n:
            self.ev.append(name)
            raise InjectedFault("stop")
        out = fn(*a, **k)
        if self.spoil is not None:
            out = self.spoil(name, h.digest(), out)
        if isinstance(out, tuple):
            for v in out:
                if isinstance(v, (np.ndarray, float, np.generic)):
                    h.update(canon(v))
        elif isinstance(out, (np.ndarray, float, np.generic)):
            h.update(canon(out))
        self.ev.append((name, h.hexdigest()[:16]))
        return out


class Enough(BaseException):
    pass


class Spoiler:
    """Non-finite answers in a part of the space: the same point always gets the same answer."""

    def __init__(self, run, names, percent, val, what, salt):
        self.run, self.names, self.percent, self.val, self.what, self.salt = run, names, percent, val, what, salt

    def __call__(self, name, dig, out):
        kind = "fun" if name == "jac" else name
        if kind not in self.names:
            return out
        if name == "jac" and self.what == "value" or hashlib.sha256(dig + self.salt).digest()[0] * 100 >= self.percent * 256:
            return out
        self.run.faults["answer:%s:%s" % (kind, self.val)] += 1
        self.run.nontrivial = True
        if isinstance(out, tuple):
            g = np.array(out[1], dtype=float)
            if self.what != "value":
                g.flat[0] = self.val
            return (self.val if self.what != "gradient" else out[0]), g
        if isinstance(out, np.ndarray):
            o = np.array(out, dtype=float)
            if o.size:
                o.flat[0] = self.val
            return o
        return self.val if self.what != "gradient" else out


def go(run, w, tape, max_iter, tol, sampler=None, x0=None, cancel=None, callback=None, **over):
    """(outcome, result).  Outcomes: ok, fault, or the name of an exception of the library."""
    u = w.fresh()
    n = [0]

    def cb(dl):
        n[0] += 1
        if cancel is not None and n[0] > cancel:
            return False

    if sampler is not None:
        seams.set_sampler(sampler)
    GUARD.start()
    try:
        return "ok", w.solve(u, tape, max_iter=max_iter, tol=tol, callback=callback if callback is not None else cb, x0=x0, **over)
    except InjectedFault:
        return "fault", None
    except Violation:
        raise
    except (ValueError, IndexError, FloatingPointError, ZeroDivisionError, OverflowError, RuntimeError, np.linalg.LinAlgError, TypeError, KeyError, AttributeError) as e:
        return "%s: %s" % (type(e).__name__, e), None
    finally:
        GUARD.stop()
        seams.set_sampler(None)


def run(run):
    src = run.src
    mode = src.weighted([("prefix", 6), ("restart", 4), ("observe", 2)])
    run.sched(mode)
    try:
        if mode == "prefix":
            prefix(run, src)
        elif mode == "observe":
            observe(run, src)
        else:
            restart(run, src)
    except Enough:
        run.probe("cut-short")


def make_spoil(run, src, so):
    if not src.chance(35):
        return None
    names = {"sfw": ["deriv"], "saga": ["deriv"], "svrg": ["deriv"], "vrtos": ["deriv"]}.get(so, ["fun"])
    return Spoiler(run, names, src.choice([3, 10, 30]), src.choice(BAD), src.choice(["value", "gradient", "both"]), bytes([src.draw(256)]))


def observe(run, src):
    """Watching a run (callback, Trace, verbosity, recorded certificates) does not change it."""
    import copt

    w = world.World(run, world.ALL, tv2d=False, scaled=True)
    so = w.solver
    budget, tol = src.int(1, 25), src.choice([1e-6, 0.0, 1e-2])
    spoil = make_spoil(run, src, so)
    kind, seed = src.choice(seams.Sampler.KINDS), src.seed()
    how = src.choice(["nothing", "trace", "trace-f", "answers"])
    over = {}
    if src.chance(40):
        over["verbose"] = src.int(1, 2)
    if so in START and src.chance(40):
        over["trace_certificate"] = True
    if how == "nothing":
        over["callback"] = "absent"
    elif how.startswith("trace"):
        f = (lambda x: w.ref.value(np.asarray(x, dtype=float))) if how == "trace-f" else None
        over["callback"] = copt.utils.Trace(f, freq=src.int(1, 4))
    elif how == "answers":
        ans = [None, 0, True, 1.0, "", np.bool_(True), np.zeros(0)]
        r = src.rand()
        over["callback"] = lambda dl: ans[r.randrange(len(ans))]
    run.cfg = dict(run.cfg, mode="observe", how=how, over=sorted(over), budget=budget, tol=tol, spoiled=spoil is not None)
    A, B = Tape(run, spoil), Tape(run, spoil)
    oa, ra = go(run, w, A, budget, tol, seams.Sampler(kind, seed))
    ob, rb = go(run, w, B, budget, tol, seams.Sampler(kind, seed), **over)
    run.sched(so, how, sorted(over))
    run.log(so, how, oa, ob, len(A.ev), len(B.ev))
    run.nontrivial = True
    run.probe("observe-" + how)
    if oa != ob or spoil is None and oa != "ok":
        raise Violation("unexpected-exception", "%s: %s / watched (%s): %s" % (so, oa, how, ob))
    ea, eb = ([e for e in T.ev if e[0] != "callback"] for T in (A, B))
    if ea != eb:
        i = next((i for i, (p, q) in enumerate(zip(ea, eb)) if p != q), min(len(ea), len(eb)))
        raise Violation("observed", "%s: call %d of user code differs when it is watched (%s, %s)" % (so, i, how, sorted(over)))
    if ra is not None:
        sa, sb = ([e for e in world.result_state(r) if e[0] != "trace_certificate"] for r in (ra, rb))
        if repr(sa) != repr(sb):
            raise Violation("observed", "%s: the result differs when it is watched (%s, %s): %s, %s" % (so, how, sorted(over), rb.x, ra.x))


def prefix(run, src):
    w = world.World(run, world.ALL, tv2d=False, scaled=True)
    so = w.solver
    big = src.choice([12, 5, 40, 120])
    spoil = make_spoil(run, src, so)
    tol_a = src.choice([1e-8, 0.0, 1e-5])
    what = src.choice(["budget", "tol", "both"])
    k = src.int(1, max(1, big - 1)) if what != "tol" else big
    tol_b = tol_a if what == "budget" else src.choice([1e-3, 1e-1, 1e-6, 1.0])
    if tol_b < tol_a:
        tol_b = tol_a
    kind, seed = src.choice(seams.Sampler.KINDS), src.seed()
    run.cfg = dict(run.cfg, mode="prefix", budgets=(big, k), tols=(tol_a, tol_b), spoiled=spoil is not None)
    A, B = Tape(run, spoil), Tape(run, spoil)
    oa, ra = go(run, w, A, big, tol_a, seams.Sampler(kind, seed))
    ob, rb = go(run, w, B, k, tol_b, seams.Sampler(kind, seed))
    run.log(so, what, oa, ob, len(A.ev), len(B.ev), hx(A.xs[-1]) if A.xs else None)
    run.sched(so, what, k, tol_b)
    if spoil is None and (oa != "ok" or ob != "ok"):
        raise Violation("unexpected-exception", "%s: %s / %s" % (so, oa, ob))
    if len(B.xs) < len(A.xs):
        run.nontrivial = True
        run.fault("budget" if what == "budget" else "tolerance" if what == "tol" else "budget+tolerance")
    elif len(B.xs) > len(A.xs) and not (so == "fw" and oa != "ok" and len(B.xs) == len(A.xs) + 1):
        raise Violation("longer", "%s: %d callbacks with budget %d and tol %g, %d with budget %d and tol %g" % (so, len(B.xs), k, tol_b, len(A.xs), big, tol_a))
    for i, (p, q) in enumerate(zip(A.xs, B.xs)):
        if canon(p) != canon(q):
            raise Violation("iterates", "%s: with budget %d and tol %g the iterate at callback %d is %s, with budget %d and tol %g it is %s" % (so, k, tol_b, i, q, big, tol_a, p))
    if what == "budget":
        n = len(B.ev)
        slack = 1 if so == "fw" else 0  # .. its last callback comes on top ..
        m = 0
        while m < min(n, len(A.ev)) and A.ev[m] == B.ev[m]:
            m += 1
        if m < n - slack:
            raise Violation("calls", "%s: call %d (%s) with budget %d differs from the one with budget %d (%s)" % (
                so, m, B.ev[m][0], k, big, A.ev[m][0] if m < len(A.ev) else "none"))
    if rb is None:
        if oa == "ok":
            raise Violation("iterates", "%s: raised %s with budget %d, not with budget %d" % (so, ob, k, big))
        return
    # .. the result is where the longer run was then ..
    j = len(B.xs) - (0 if so in START or (so == "pdhg" and rb.success) else 1)
    if j < len(A.xs):
        want = A.xs[j]
    elif ra is not None:
        want = np.asarray(ra.x, dtype=float)
    else:
        return
    run.probe("prefix-" + so)
    if canon(want) != canon(rb.x):
        raise Violation("result", "%s: with budget %d and tol %g it returns %s, where the run with budget %d and tol %g was at %s" % (so, k, tol_b, rb.x, big, tol_a, want))


def restart(run, src):
    w = world.World(run, ["pgd", "fw", "svrg"], tv2d=False, scaled=True)
    so = w.solver
    over = {}
    if so == "pgd":
        pol = src.choice(["constant", "state", "large"])
        c = {"constant": 1.0, "state": 0.7, "large": 1.7}[pol] / w.L
        w.opt["step"] = "callable"
        if pol == "state":
            over["step"] = lambda dl: c / (1 + float(np.abs(dl["x"]).max()))
        else:
            over["step"] = lambda dl: c
    elif so == "fw":
        w.lmo_variant = "vanilla"
        w.x0_rep = None
        w.rule = src.choice(["DR", "callable"])
        if w.rule == "callable":
            over["step"] = lambda dl: min(0.3, float(np.abs(dl["x"]).max()) + 0.01)
    n_tot = src.choice([6, 15, 40])
    kind, seed = src.choice(seams.Sampler.KINDS), src.seed()

    def sampler(done):
        s = seams.Sampler(kind, seed)
        for _ in range(done):
            s.perm(w.n)
        return s

    run.cfg = dict(run.cfg, mode="restart", total=n_tot, rule=w.rule if so == "fw" else None)
    A = Tape(run)
    oa, ra = go(run, w, A, n_tot, 0.0, sampler(0), **over)
    if oa != "ok":
        raise Violation("unexpected-exception", "%s: %s" % (so, oa))
    # .. iterates of the uninterrupted run ..
    ref = A.xs + ([np.asarray(ra.x, dtype=float)] if so in START else [])
    if so == "fw" and len(ref) > 1 and canon(ref[-1]) == canon(ref[-2]):
        ref = ref[:-1]
    pos, x0 = 0, None
    left = src.int(1, 4)
    for leg in range(left + 1):
        last = leg == left
        how = None if last else src.choice(["exception", "budget", "cancel"] if so != "svrg" else ["exception", "budget"])
        T = Tape(run)
        cancel = None
        room = len(ref) - pos
        if room <= 1:
            break
        budget = n_tot
        if how == "exception":
            T.stop = src.draw(src.choice([8, 40, 200]))
        elif how == "cancel":
            cancel = src.draw(room)
        elif how == "budget":
            budget = src.int(1, max(1, room - 1))
        oc, rc = go(run, w, T, budget, 0.0, sampler(pos), x0=x0, cancel=cancel, **over)
        run.sched(how, T.stop, cancel, budget)
        if how == "exception" and oc == "fault":
            run.fault("exception", T.ev[-1])
        elif how is not None and oc == "ok":
            run.fault(how)
        if oc not in ("ok", "fault"):
            raise Violation("unexpected-exception", "%s after %d restarts: %s" % (so, leg, oc))
        xs = T.xs + ([np.asarray(rc.x, dtype=float)] if so in START and rc is not None and cancel is None else [])
        if so == "fw" and cancel is not None and oc == "ok" and len(T.xs) == cancel + 2:
            xs.pop()  # .. its last callback shows the same iterate again ..
        for i, x in enumerate(xs):
            if pos + i >= len(ref):
                break
            if canon(ref[pos + i]) != canon(x):
                raise Violation("restart", "%s restarted from its iterate %d (%d interruptions before): iterate %d is %s, uninterrupted it is %s" % (so, pos, leg, pos + i, x, ref[pos + i]))
        if last:
            run.probe("restart-" + so)
            break
        if not xs:
            continue
        pos = min(pos + len(xs) - 1, len(ref) - 1)
        x0 = xs[-1].copy()
        if pos == len(ref) - 1:
            break
    run.log(so, hx(ref[-1]), pos)
