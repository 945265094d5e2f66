"""C18: every solver call ends after a bounded amount of work, whatever user code answers."""
import numpy as np

from dst import seams, world
from dst.core import GUARD, Violation, hx

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("a run draws a solver, a problem, a budget and an adversary for each oracle (NaN, infinities, huge or tiny numbers, constants, values that always rise or fall, flipped or random gradients, "
        "broken proximal operators and linear oracles; permanently, from some call on, or mixed per call) and counts calls per iteration and loop turns; non-trivial: an answer was falsified")
REAL = ["all nine solvers", "losses, penalties, constraint sets, copt.tv_prox", "copt.utils.init_lipschitz"]
STUB = ["oracle wrappers that falsify the answers", "NumPy's global generator (sampling policies)"]
ASSUMPTIONS = ["a solver that gives up with an exception has stopped", "callback called once per iteration marks progress; without a callback the whole call is counted"]
LEVEL_NOTE = ("seeded search over adversarial oracles with deterministic counters (calls of user code, loop turns inside copt) instead of wall-clock limits; no completeness claim")
setup = world.setup

VALUES = ["nan", "inf", "-inf", "huge", "-huge", "const", "falling", "rising", "noise", "zero"]
GRADS = ["true", "nan", "flip", "zero", "huge", "tiny", "noise", "inf"]
VECS = ["nan", "one-nan", "inf", "noise", "zero", "huge", "flip", "stale"]


def number(kind, r, i, f):
    if kind == "nan":
        return np.nan
    if kind == "inf":
        return np.inf
    if kind == "-inf":
        return -np.inf
    if kind == "huge":
        return 1e300
    if kind == "-huge":
        return -1e300
    if kind == "const":
        return 1.0
    if kind == "falling":
        return -float(i)
    if kind == "rising":
        return float(i)
    if kind == "zero":
        return 0.0
    return r.gauss(0, 1)


def vector(kind, r, v, memo):
    o = np.array(v, dtype=float)
    if kind == "nan":
        o[...] = np.nan
    elif kind == "one-nan":
        if o.size:
            o.flat[r.randrange(o.size)] = np.nan
    elif kind == "inf":
        if o.size:
            o.flat[r.randrange(o.size)] = np.inf
    elif kind == "noise":
        o = np.array([r.gauss(0, 1) for _ in range(o.size)]).reshape(o.shape)
    elif kind == "zero":
        o[...] = 0
    elif kind == "huge":
        o = o * 1e300
    elif kind == "tiny":
        o = o * 1e-300
    elif kind == "flip":
        o = -o
    elif kind == "stale":
        if "v" in memo and memo["v"].shape == o.shape:
            return memo["v"].copy()
        memo["v"] = o.copy()
    return o


class Adversary:
    def __init__(self, run, oracles, seed):
        src = run.src
        import random

        self.r = random.Random(seed)
        self.run = run
        self.plan = {}
        for nm in oracles:
            if not src.chance(70):
                continue
            mix = src.chance(35)
            self.plan[nm] = dict(value=src.choice(VALUES), grad=src.choice(GRADS), vec=src.choice(VECS), start=src.choice([0, 1, src.draw(12)]), every=src.choice([1, 1, 2, 7]), mix=mix)
        self.n = {}
        self.memo = {}
        self.fired = 0

    def __call__(self, name, out):
        kind = "fun" if name == "jac" else name
        p = self.plan.get(kind)
        i = self.n.get(kind, 0)
        self.n[kind] = i + 1
        if p is None or i < p["start"] or i % p["every"]:
            return out
        self.fired += 1
        r = self.r
        val, grad, vec = p["value"], p["grad"], p["vec"]
        if p["mix"]:
            val, grad, vec = r.choice(VALUES), r.choice(GRADS), r.choice(VECS)
        self.run.faults["%s:%s" % (kind, "mixed" if p["mix"] else (val if kind == "fun" else vec))] += 1
        memo = self.memo.setdefault(kind, {})
        if name == "jac":
            return vector(grad, r, out, memo)
        if kind == "fun":
            if isinstance(out, tuple):
                return number(val, r, i, out[0]), vector(grad, r, out[1], memo)
            return number(val, r, i, out)
        if kind == "step":
            a = number(val, r, i, 0)
            return (a, out[1]) if isinstance(out, tuple) else a
        if kind == "lmo":
            d, rep, away, mx = out
            if vec == "stale":
                mx = number(val, r, i, 0)
            return vector(vec, r, d, memo), rep, away, mx
        if isinstance(out, np.ndarray):
            return vector(vec, r, out, memo)
        return out


class Enough(BaseException):
    pass


def run(run):
    src = run.src
    w = world.World(run, world.ALL, tv2d=src.chance(15), small=True)
    so = w.solver
    stoch = so in world.STOCH
    max_iter = src.choice([1, 2, src.int(3, 8), 25])
    tol = src.choice([1e-6, 0.0, 1e-12, 1e3, np.nan])
    over = {}
    mb = None
    if so in ("pgd", "apgd", "tos") and src.chance(50):
        mb = src.choice([1, 3, 30])
        over["max_iter_backtracking"] = mb
    if so in ("pgd", "apgd"):
        cap = 6 * (mb or 1000) + 300
    elif so == "tos":
        cap = 4 * (mb or 100) + 150
    elif so == "fw":
        cap = 500
    elif so == "pdhg":
        cap = 80000
        max_iter = min(max_iter, 5)
    else:
        cap = 60 * (w.n + 1) * (w.p + 1) + 100
    names = {"pgd": ["fun", "prox1", "step"], "apgd": ["fun", "prox1", "step"], "tos": ["fun", "prox1", "prox2"], "pdhg": ["fun", "prox1", "prox2", "linop"],
             "fw": ["fun", "lmo", "step"], "saga": ["deriv"], "svrg": ["deriv"], "vrtos": ["deriv"], "sfw": ["deriv", "lmo", "step"]}[so]
    adv = Adversary(run, names, src.seed())
    silent = src.chance(25)  # no callback: the solver must not depend on it
    x0 = w.x0
    if w.cons is None and src.chance(15):
        x0 = x0 * src.choice([1e8, 1e150, 1e300, 1e-300])
    run.cfg = dict(run.cfg, max_iter=max_iter, tol=tol, adversary=adv.plan, over=over)
    run.sched(so, max_iter, sorted((k, v["value"], v["grad"], v["vec"], v["mix"]) for k, v in adv.plan.items()))
    u = w.fresh()
    since = [0]
    worst = [0]
    total = [0]
    ncb = [0]
    limit = 40000 if so != "pdhg" else 90000

    def hook(name, fn, *a, **k):
        GUARD.reset()
        if name == "callback":
            since[0] = 0
            ncb[0] += 1
            if ncb[0] > max_iter + 2 and so != "sfw":
                raise Violation("over-budget", "%s: iteration %d with max_iter=%d" % (so, ncb[0], max_iter))
            return fn(*a, **k)
        since[0] += 1
        total[0] += 1
        worst[0] = max(worst[0], since[0])
        if since[0] > cap:
            raise Violation("unbounded", "%s: more than %d calls of user code within one iteration (iteration %d, %s)" % (so, cap, ncb[0], adv.plan))
        if total[0] > limit and since[0] < cap // 2:
            raise Enough()  # keeps its budget per iteration; the rest is repetition
        return adv(name, fn(*a, **k))

    GUARD.start(limit=400000)
    if stoch:
        seams.set_sampler(seams.Sampler("uniform", src.seed()))
    try:
        if silent:
            over["callback"] = None
            cap *= max_iter + 2
        res = w.solve(u, hook, max_iter=max_iter, tol=tol, x0=x0, **over)
    except Violation:
        raise
    except RecursionError as e:
        raise Violation("unbounded", "%s: %s" % (so, e))
    except Enough:
        run.probe("cut-short")
        run.log(so, "cut short")
        run.nontrivial = True
        return
    except Exception as e:
        if not adv.fired and x0 is w.x0 and tol == tol:
            raise Violation("unexpected-exception", "%s: %s: %s" % (so, type(e).__name__, e))
        run.probe("exception-" + type(e).__name__)
        run.log(so, type(e).__name__)
        run.nontrivial = True
        return
    finally:
        GUARD.stop()
        seams.set_sampler(None)
    run.nontrivial = run.nontrivial or adv.fired > 0
    run.counts["%s:calls-per-iteration<=1e%d" % (so, len(str(worst[0])))] += 1
    run.log(so, res.nit, ncb[0], total[0], hx(res.x))
    if not res.nit <= max_iter:
        raise Violation("over-budget", "%s: nit=%s with max_iter=%d" % (so, res.nit, max_iter))
