"""C16: convergence to the optimum after chains of interruptions, from any start, for any sampling order."""
import numpy as np

from dst import problems as pb
from dst import seams, world
from dst.core import GUARD, InjectedFault, Violation, hx

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("a run draws a strongly convex problem, a solver, a starting point and a chain of kills, cancellations and exhausted budgets, each followed by a restart from the last iterate the "
        "callback saw; after the last interruption one uninterrupted call is compared with an independently computed optimum; non-trivial: at least one interruption fired or a non-random sampling order was used")
REAL = ["all proximal and stochastic solvers", "losses, penalties, constraint sets, copt.tv_prox"]
STUB = ["user callback and oracle wrappers", "NumPy's global generator (sampling policies)"]
ASSUMPTIONS = ["condition number of the smooth part below 60", "distance to the optimum below 2e-4 relative counts as reached", "pairs of penalties of VRTOS, TOS and PDHG whose sum has a known prox"]
LEVEL_NOTE = ("bounded liveness of the real solvers under simulated interruptions, judged by distance to an independently computed optimum; no completeness claim")
setup = world.setup

SOLVERS = ["pgd", "apgd", "tos", "pdhg", "saga", "svrg", "vrtos"]
BUDGET = {"pgd": 4000, "apgd": 4000, "tos": 6000, "pdhg": 6000}


def vrtos_prox(w):
    """Prox of the sum of the two block penalties, or None."""
    a, b = w.pen, w.pen2
    pa, pb_ = w._block_prox(a), w._block_prox(b)
    ka, kb = w.pk, w.pk2
    if ka == "none":
        return pb_
    if kb == "none":
        return pa
    if (ka, kb) == ("fl1", "fl2"):
        ba, bb = a.obj.alpha, b.obj.alpha
        if ba == bb:
            return lambda v, t: world.prox_tv(v, ba * t)
        return None
    if (ka, kb) in (("l1", "l1"),):
        return lambda v, t: pb_(pa(v, t), t)
    if (ka, kb) == ("l1", "group") or (ka, kb) == ("l1", "l1"):
        return lambda v, t: pb_(pa(v, t), t)
    if (ka, kb) == ("group", "l1"):
        return lambda v, t: pa(pb_(v, t), t)
    if ka == "fl1" and kb == "l1":
        return lambda v, t: pb_(pa(v, t), t)
    if ka == "l1" and kb == "fl2":
        return lambda v, t: pa(pb_(v, t), t)
    return None


def optimum(w, prox):
    x = prox(np.zeros(w.p), 1.0 / w.L)
    y, t = x.copy(), 1.0
    for _ in range(20000):
        xn = prox(y - w.ref.grad(y) / w.L, 1.0 / w.L)
        if (y - xn).dot(xn - x) > 0:
            t, y2 = 1.0, xn.copy()
        else:
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            y2 = xn + (t - 1) / tn * (xn - x)
            t = tn
        done = np.linalg.norm(xn - y) * w.L < 1e-10 and np.linalg.norm(xn - x) * w.L < 1e-10
        x, y = xn, y2
        if done:
            return x
    return None


def run(run):
    src = run.src
    w = world.World(run, SOLVERS, strongly=True, small=True, scaled=True)
    so = w.solver
    stoch = so in world.STOCH
    eig = np.linalg.eigvalsh(w.A.T.dot(w.A) / w.n)[0] if w.lossk == "square" else 0.0
    mu = w.alpha + max(eig, 0.0)
    if w.L / mu > 60:
        run.probe("ill-conditioned-skipped")
        return
    if so == "vrtos":
        prox = vrtos_prox(w)
        if prox is None:
            run.probe("no-reference-skipped")
            return
    else:
        prox = w.composite()[1]
    xs = optimum(w, prox)
    if xs is None:
        run.probe("reference-not-converged")
        return
    if stoch:
        Ls = w._lstoch([w.pen] if so != "vrtos" else [w.pen, w.pen2])
        w.step = 1.0 / 3 / w._lstoch([w.pen] if so != "vrtos" else [w.pen, w.pen2])
    x0 = w.x0
    scale = src.choice([1, 1, 30])
    x0 = x0 * scale
    if so == "pdhg":
        # the dual iterate moves by step_size2 against a curvature of 1/L: keep the product large enough for the budget
        if not w.opt["line_search"]:
            w.opt["step_size2"] = 0.9 / (2.0 if w.Lop.startswith("diff") else 1.0)
        else:
            w.opt["step_size2"] = src.choice([None, w.opt["step_size"]])
            if w.L > 8:
                run.probe("ill-conditioned-skipped")
                return
    target = 2e-4 * (1 + np.linalg.norm(xs))
    budget = BUDGET.get(so)
    if stoch:
        # linear rate min(1/4n, mu/3L) per sample step, with a wide margin
        rho = min(1.0 / (4 * w.n), mu / (3 * Ls))
        d0 = np.linalg.norm(x0 - xs) + 1
        budget = int(np.ceil((2 * np.log(d0 / target) + 6) * (3 if so == "vrtos" else 2) / (rho * w.n)))
        if budget * w.n > 12000:
            run.probe("ill-conditioned-skipped")
            return
    u = w.fresh()
    kind = src.choice(["uniform", "identity", "reverse", "rotate", "constant", "evens-odds"])
    lives = src.weighted([(0, 4), (1, 4), (2, 2), (3, 1)])
    if stoch and kind != "uniform":
        run.nontrivial = True
        run.probe("order-" + kind)
    run.cfg = dict(run.cfg, order=kind, lives=lives, L=w.L, mu=mu)
    run.sched(so, kind, lives)
    for life in range(lives):
        how = src.choice(["kill", "cancel", "budget"] if not stoch else ["kill", "budget"])
        it = src.int(1, 25)
        kill = src.draw(12 * it) if how == "kill" else None
        if how == "kill" and stoch:
            kill = src.draw(3 * w.n * it)
        x0 = one(run, w, u, x0, it, kill, src.draw(it) if how == "cancel" else None, kind, 1e-12)[0]
        if how == "budget":
            run.fault("budget-exhausted", it)
    x, res = one(run, w, u, x0, budget, None, None, kind, 0.0 if stoch else 1e-7 if so == "apgd" else 1e-10)
    xr = np.asarray(res.x, dtype=float)
    if xr.shape != xs.shape or not np.all(np.isfinite(xr)):
        raise Violation("not-finite", "%s: result %s" % (so, xr))
    d = np.linalg.norm(xr - xs)
    run.log(so, hx(xr), res.nit)
    run.counts["%s:nit<=%d" % (so, 4 ** len(np.base_repr(int(res.nit), 4)))] += 1
    run.probe("compared-" + so)
    if not d <= target:
        raise Violation("not-optimal", "%s: distance %.3g to the optimum after %d interruption(s) and %d uninterrupted iterations (target %.2g)" % (so, d, lives, res.nit + 1, target))
    if so != "vrtos":
        # .. started there with a tolerance that can be met, the solver notices ..
        loose = 1e-3 * (1 + np.linalg.norm(xs)) * (1.0 if stoch or so == "pdhg" else max(w.L, 1.0))
        res = one(run, w, u, xr, budget, None, None, kind, loose)[1]
        run.log(so, bool(res.success), res.nit)
        if not res.success:
            raise Violation("not-noticed", "%s: started at the optimum with tolerance %.2g, no success after %d of %d iterations" % (so, loose, res.nit + 1, budget))
        run.probe("noticed-" + so)


def one(run, w, u, x0, iters, kill, cancel, kind, tol):
    last = [np.array(x0)]
    ncb = [0]
    calls = [0]

    def hook(name, fn, *a, **k):
        GUARD.reset()
        if kill is not None and name != "callback":
            if calls[0] >= kill:
                run.fault("kill", name)
                raise InjectedFault(name)
            calls[0] += 1
        return fn(*a, **k)

    def cb(dl):
        last[0] = np.array(dl["x"], copy=True)
        k = ncb[0]
        ncb[0] += 1
        if cancel is not None and k == cancel:
            run.fault("cancel", k)
            return False

    seams.set_sampler(seams.Sampler(kind, run.src.seed()))
    GUARD.start()
    try:
        res = w.solve(u, hook, max_iter=iters, tol=tol, callback=cb, x0=x0)
        if cancel is None:
            last[0] = np.array(res.x, copy=True)
    except InjectedFault:
        res = None
    except Violation:
        raise
    except Exception as e:
        raise Violation("unexpected-exception", "%s: %s: %s" % (w.solver, type(e).__name__, e))
    finally:
        GUARD.stop()
        seams.set_sampler(None)
    return last[0], res
