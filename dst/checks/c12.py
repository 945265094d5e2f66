"""C12: line searches under transient failures of the objective at trial points."""
import numpy as np

from dst import fw, sfw, world
from dst.core import GUARD, Violation

RUNS = {"quick": 14000, "thorough": 200000}
RULE = ("a run draws proximal gradient (plain, accelerated), three-operator splitting or Frank-Wolfe with their line search, a problem, and bursts of trial evaluations that answer NaN, "
        "infinite or absurdly large values (with good or bad gradients); non-trivial: at least one trial failed")
REAL = ["copt.proximal_gradient", "copt.splitting.minimize_three_split", "copt.frank_wolfe backtracking", "losses, penalties, constraint sets"]
STUB = ["objective, prox, oracle and callback wrappers that inject the failures"]
ASSUMPTIONS = ["an evaluation counts as a trial when its point is the latest output of the proximal operator (Frank-Wolfe: between oracle and callback, from the second iteration on)",
               "bursts shorter than the backtracking budget; for three-operator splitting, whose step never grows again, at most six failures in all",
               "monotonicity tested to 1e-9 relative (Frank-Wolfe: its documented float32 tolerance)"]
LEVEL_NOTE = ("seeded search over patterns of transient oracle failures against the real line searches, with every accepted iterate judged, and bounded liveness after the failures; no completeness claim")
setup = world.setup

HOW = [(np.nan, False), (np.inf, False), (np.nan, True), (np.inf, True), (1e300, False)]


class Unavoidable(Exception):
    pass


class Enough(Exception):
    pass


def pt(x):
    """Identity of a point (no signed zeros)."""
    return (np.asarray(x, dtype=float) + 0.0).tobytes()


class Identity:
    def prox(self, x, s):
        return x.copy()


def run(run):
    src = run.src
    strongly = src.chance(60)
    w = world.World(run, ["pgd", "apgd", "tos", "fw"], strongly=strongly)
    so = w.solver
    if so in ("pgd", "apgd"):
        w.opt["step"] = "backtracking"
    elif so == "tos":
        w.opt["line_search"] = True
    else:
        w.rule = "backtracking"
    u = w.fresh()
    for k in ("pen1", "pen2"):
        if k in u and u[k] is None:
            u[k] = Identity()
    total = src.int(1, 6) if so == "tos" else src.int(1, 25)
    gap = src.choice([1, 2, 4, 8])
    left = [total]
    burst = [0]
    wait = [src.draw(6)]
    how = [HOW[0]]
    last = {"prox": None, "open": False, "cb": 0, "F": None, "same": 0}
    bad = {}
    recent = set()
    again = {}
    again_n = src.int(1, 3)
    trials = [0]
    seen_good = set()
    budget = src.int(2, 60)
    liveness = strongly and so in ("pgd", "tos") and src.chance(30)
    if liveness and so == "pgd":
        # .. linear convergence fast enough for the budget ..
        eig = np.linalg.eigvalsh(w.A.T.dot(w.A) / w.n)[0] if w.lossk == "square" else 0.0
        liveness = w.L < 60 * (w.alpha + max(eig, 0.0))
    max_iter = 4000 if liveness else budget
    tol = 1e-5
    x_prev = [None]
    evals = [0]

    def decide(key):
        """How the evaluation at a trial point fails, or None."""
        if key in bad:
            again[key] -= 1
            if again[key] >= 0:
                return bad[key]
            del bad[key]  # the failure was transient
            recent.discard(key)
            seen_good.add(key)
            return None
        if key in seen_good or left[0] <= 0:
            return None
        trials[0] += 1
        if burst[0] == 0:
            if wait[0] > 0:
                wait[0] -= 1
                return None
            burst[0] = src.int(1, 6)
            wait[0] = src.draw(gap)
            how[0] = src.choice(HOW)
        burst[0] -= 1
        left[0] -= 1
        run.fault("trial:%s" % ("huge" if how[0][0] == 1e300 else how[0][0]), trials[0])
        bad[key] = how[0]
        again[key] = again_n
        return how[0]

    def is_trial(x):
        if so == "fw":
            return last["open"] and last["cb"] >= 1
        return last["prox"] is not None and last["prox"] == pt(x)

    def hook(name, fn, *a, **k):
        GUARD.reset()
        out = fn(*a, **k)
        if name == "prox1":
            key = pt(out)
            last["same"] = last["same"] + 1 if key == last["prox"] and key in bad else 0
            last["prox"] = key
            if last["same"] >= 40:
                raise Unavoidable()  # every admissible step leads to this one point: the budget will not help
        elif name == "prox2":
            last["prox"] = None
        elif name == "lmo":
            last["open"] = True
        elif name in ("fun", "jac"):
            evals[0] += 1
            if so == "apgd" and evals[0] > 3000:
                raise Enough()  # .. how fast it goes on is the matter of C16 and C17 ..
            if evals[0] > 400000:
                raise Violation("unbounded", "more than 400000 evaluations")
            x = np.asarray(a[0], dtype=float)
            if last["cb"] >= 1 or so == "tos":
                if is_trial(x):
                    d = decide(pt(x))
                    if d is not None:
                        recent.add(pt(x))
                        return spoil(name, out, d)
            seen_good.add(pt(x))
        return out

    def spoil(name, out, d):
        val, both = d
        if name == "jac":
            return np.full_like(out, np.nan) if both else out
        if isinstance(out, tuple):
            return (val, np.full_like(out[1], np.nan)) if both else (val, out[1])
        return val

    F = None
    if so == "pgd" and w.t1.value is not None:
        F = lambda x: w.ref.value(x) + w.t1.value(x)  # noqa
    elif so == "fw":
        F = w.ref.value

    def cb(dl):
        last["cb"] += 1
        last["open"] = False
        judge(np.array(dl["x"], dtype=float))

    first = [True]

    def judge(x):
        if not np.all(np.isfinite(x)):
            raise Violation("moved-to-failure", "%s: iterate %d is not finite: %s" % (so, last["cb"], x))
        start = first[0] and so != "tos"
        first[0] = False
        # (three-operator splitting makes steps below 1e-7 without looking: only answers of this iteration count there)
        if pt(x) in (recent if so == "tos" else bad) and not start:
            raise Violation("moved-to-failure", "%s: accepted a point where the function answered %s (iterate %d)" % (so, bad[pt(x)][0], last["cb"]))
        recent.clear()
        v = w.ref.value(x)
        if not np.isfinite(v):
            raise Violation("moved-to-failure", "%s: objective %s at iterate %d" % (so, v, last["cb"]))
        if F is not None:
            f = F(x)
            if last["F"] is not None and np.isfinite(last["F"]):
                slack = 1e-9 * (1 + abs(last["F"]))
                if so == "fw":
                    slack += 2e-7
                if not f <= last["F"] + slack:
                    raise Violation("increase", "%s: objective rose from %.12g to %.12g at iterate %d" % (so, last["F"], f, last["cb"]))
            last["F"] = f

    GUARD.start()
    try:
        if so == "fw":
            lip = src.choice([None, w.L, w.L * 1e-3])
            res = w.solve(u, hook, max_iter=budget, tol=0.0, callback=cb, lipschitz=lip)
        else:
            res = w.solve(u, hook, max_iter=max_iter, tol=tol, callback=cb)
    except Violation:
        raise
    except Enough:
        run.probe("slow")
        return
    except Unavoidable:
        run.probe("unavoidable-point")
        return
    except Exception as e:
        raise Violation("unexpected-exception", "%s: %s: %s" % (so, type(e).__name__, e))
    finally:
        GUARD.stop()
    x = np.array(res.x, dtype=float)
    if so != "tos":
        judge(x)
    run.log("end", so, pt(x), bool(getattr(res, "success", False)), left[0])
    run.probe("failed-trials", total - left[0])
    if liveness and so == "tos":
        # .. its step never grows: failures cost speed for good ..
        eig = np.linalg.eigvalsh(w.A.T.dot(w.A) / w.n)[0] if w.lossk == "square" else 0.0
        s0 = min(w.opt["step_size"] or 0.1 / w.L, 0.7 / w.L) * 0.7 ** (total - left[0])
        liveness = s0 * (w.alpha + max(eig, 0.0)) * max_iter > 80
    if liveness:
        run.probe("liveness-" + so)
        run.counts["iters<=%d" % (10 ** len(str(res.nit)))] += 1
        if not res.success:
            raise Violation("not-recovered", "%s: after %d failed trials no success within %d iterations: certificate %s, step %s" % (
                so, total - left[0], max_iter, res.certificate, getattr(res, "step_size", None)))
