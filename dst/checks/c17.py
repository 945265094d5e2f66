"""C17: success and certificates under cancellations, small budgets and non-finite oracle answers."""
import numpy as np

from dst import seams, world
from dst.checks import c16
from dst.core import GUARD, Violation, hx

RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("a run draws a strongly convex problem, a solver, a tolerance, a budget, a start (also stationary points of the smooth part), optionally a cancellation and bursts of NaN or infinite answers of "
        "any oracle; every reported success is compared with the documented criterion evaluated on the true functions; non-trivial: a fault fired, the run was cancelled or the budget ended it")
REAL = ["copt.proximal_gradient", "copt.splitting", "copt.randomized (SAGA, SVRG, stochastic Frank-Wolfe)", "losses, penalties, constraint sets, copt.tv_prox"]
STUB = ["user callback, and oracle wrappers that inject the non-finite answers", "NumPy's global generator (sampling policies)"]
ASSUMPTIONS = ["residuals are judged at the reference step 1/L with the constants that the theory gives, plus a rounding floor",
               "splitting methods: optimality is judged by the distance to the optimum that the residual implies on strongly convex problems",
               "SAGA, SVRG and stochastic Frank-Wolfe: the documented criterion is the movement of the last pass or step"]
LEVEL_NOTE = ("seeded search over fault patterns, cancellations and budgets with an independent evaluation of the stopping criterion; no completeness claim")
setup = world.setup

SOLVERS = ["pgd", "apgd", "tos", "pdhg", "saga", "svrg", "sfw"]
ORACLES = {"pgd": ["fun", "prox1"], "apgd": ["fun", "prox1"], "tos": ["fun", "prox1", "prox2"], "pdhg": ["fun", "prox1", "prox2"], "saga": ["deriv"], "svrg": ["deriv"], "sfw": ["deriv"]}
BAD = [np.nan, np.inf, -np.inf]


class Enough(BaseException):
    """The rest of this run is not worth its time."""


class Identity:
    def prox(self, x, s):
        return x.copy()


def run(run):
    src = run.src
    w = world.World(run, SOLVERS, strongly=True, small=True)
    so = w.solver
    stoch = so in world.STOCH
    eig = np.linalg.eigvalsh(w.A.T.dot(w.A) / w.n)[0] if w.lossk == "square" else 0.0
    mu = w.alpha + max(eig, 0.0)
    prox = w.composite()[1] if so != "sfw" else None
    tol = src.choice([1e-2, 1e-4, 1e-6, 1e-8, 0.3])
    max_iter = src.choice([src.int(1, 6), 30, 300, 1500])
    x0 = w.x0 * (src.choice([1, 1, 30]) if so != "sfw" else 1)
    special = src.chance(12) and so != "sfw"
    if special:
        x0 = stationary(w, src)
    mode = src.weighted([("healthy", 4), ("fault", 6), ("cancel", 2)])
    cancel = src.draw(min(max_iter, 12)) if mode == "cancel" else None
    plan = []
    by_pass = False  # the window of a fault counts iterations instead of calls
    if so == "pdhg" and mode == "fault" and src.chance(40):
        # .. trials that fail until after the next look at the residual, which is taken every 100 iterations ..
        max_iter = 100 * src.int(1, 4) + src.draw(100) + 2
        at = 100 * src.draw(max_iter // 100 + 1) + src.choice([0, 1, 0, 2])
        plan.append(("fun", at, at + src.choice([1, 2, 10, 10 ** 9]), src.choice(BAD), src.choice(["value", "value", "both"]), src.draw(8)))
        by_pass = True
    elif mode == "fault":
        for _ in range(src.weighted([(1, 4), (2, 2), (3, 1)])):
            start = src.draw(src.choice([4, 30, 300]))
            # a burst, or for ever
            length = src.choice([1, 2, 5, 25, 150, 10 ** 9])
            plan.append((src.choice(ORACLES[so]), start, start + length, src.choice(BAD), src.choice(["value", "gradient", "both"]), src.draw(8)))
    run.cfg = dict(run.cfg, tol=tol, max_iter=max_iter, mode=mode, plan=plan, by_pass=by_pass, x0=x0)
    run.sched(so, mode, [(q[0], q[4], str(q[3])) for q in plan], cancel)
    u = w.fresh()
    for k in ("pen1", "pen2"):
        if k in u and u[k] is None:
            u[k] = Identity()
    calls = {}
    fired = [0]
    fired_at = []
    last_fired = [-1]
    xs = []
    total = [0]

    def hook(name, fn, *a, **k):
        GUARD.reset()
        total[0] += 1
        if total[0] > 15000:
            raise Enough()
        out = fn(*a, **k)
        kind = "fun" if name == "jac" else name
        i = calls.get(kind, 0)
        calls[kind] = i + 1
        for (nm, lo, hi, val, what, pos) in plan:
            if nm == kind and lo <= (len(xs) if by_pass else i) < hi:
                new = spoil(name, out, val, what, pos)
                if new is not None:
                    fired[0] += 1
                    last_fired[0] = len(xs)
                    if len(xs) not in fired_at:
                        fired_at.append(len(xs))
                    run.nontrivial = True
                    run.faults["answer:%s:%s" % (nm, val)] += 1
                    out = new
        return out

    cancelled = [False]

    def cb(dl):
        xs.append(np.array(dl["x"], dtype=float))
        if cancel is not None and len(xs) - 1 >= cancel:
            cancelled[0] = True
            return False

    if stoch:
        seams.set_sampler(seams.Sampler(src.choice(["uniform", "identity", "reverse", "constant"]), src.seed()))
    GUARD.start()
    try:
        res = w.solve(u, hook, max_iter=max_iter, tol=tol, callback=cb, x0=x0)
    except Violation:
        raise
    except Enough:
        run.probe("cut-short")
        return
    except Exception as e:
        # .. giving up with an exception is no claim of success ..
        if fired[0] and isinstance(e, (ValueError, IndexError, FloatingPointError, ZeroDivisionError, OverflowError, RuntimeError, np.linalg.LinAlgError)):
            run.probe("exception-" + type(e).__name__)
            run.log(so, type(e).__name__)
            return
        raise Violation("unexpected-exception", "%s: %s: %s" % (so, type(e).__name__, e))
    finally:
        GUARD.stop()
        seams.set_sampler(None)
    x = np.asarray(res.x, dtype=float)
    ok = bool(res.success)
    run.log(so, mode, hx(x), ok, res.nit, fired[0])
    if stoch:
        cancelled[0] = False  # these solvers do not document cancellation
    if cancelled[0]:
        run.fault("cancel", cancel)
    if not ok:
        run.nontrivial = True
        run.probe("no-success-" + mode)
        if not cancelled[0] and not fired[0] and tol >= 1e-6 and len(xs) < max_iter:
            raise Violation("gave-up", "%s stopped after %d of %d iterations, neither cancelled nor successful (certificate %s)" % (so, len(xs), max_iter, res.get("certificate")))
        if stoch and not fired[0]:
            for k in range(len(xs) - 1):
                if np.abs(xs[k + 1] - xs[k]).sum() < tol * (1 - 1e-9):
                    raise Violation("kept-going", "%s: met the tolerance at callback %d of %d, went on and claimed no success" % (so, k + 1, len(xs)))
        return
    run.probe("success-" + so)
    if cancelled[0]:
        raise Violation("success-after-cancel", "%s: success after the callback returned False" % so)
    if not np.all(np.isfinite(x)):
        raise Violation("success-not-finite", "%s: success with x = %s" % (so, x))
    crit = res.get("certificate")
    if so in ("pgd", "apgd", "tos", "pdhg") and not crit < tol * (1 + 1e-12):
        raise Violation("certificate", "%s: success with certificate %s, tol %s" % (so, crit, tol))
    bx = np.linalg.norm(x)
    L = w.L
    if so in ("pgd", "apgd"):
        g = w.ref.grad(x)
        val = w.composite()[0]
        F = abs(w.ref.value(x)) + (abs(val(x)) if np.isfinite(val(x)) else 0)
        gm = L * np.linalg.norm(x - prox(x - g / L, 1 / L))
        s = float(res.step_size) if res.step_size is not None else 1 / L
        c = max(1.0, s * L)
        bound = (1.2 * c * (1 + s * L) if so == "pgd" else c) * tol + floor(F, L, bx)
        if not gm <= bound:
            raise Violation("dishonest-success", "%s: success (certificate %.3g, tol %g) at a point where the gradient mapping is %.3g (allowed: %.3g)" % (so, crit, tol, gm, bound))
        return
    if so in ("saga", "svrg", "sfw"):
        if len(xs) < 2:
            raise Violation("dishonest-success", "%s: success without a pass" % so)
        move = np.abs(xs[-1] - xs[-2]).sum()
        if not np.array_equal(xs[-1], x) or not move < tol:
            raise Violation("dishonest-success", "%s: success although the last %s moved x by %.3g (tol %g)" % (so, "step" if so == "sfw" else "pass", move, tol))
        for k in range(len(xs) - 2):
            if np.abs(xs[k + 1] - xs[k]).sum() < tol * (1 - 1e-9):
                raise Violation("kept-going", "%s: met the tolerance at callback %d of %d and went on" % (so, k + 1, len(xs)))
        if so == "sfw":
            return
        if fired[0] and np.all((w.A != 0).any(axis=1)):
            raise Violation("success-after-nan", "%s: success with x = %s although %d derivatives were not finite" % (so, x, fired[0]))
        return
    # .. splitting methods: distance implied by a residual of size tol ..
    xo = c16.optimum(w, prox)
    if xo is None:
        run.probe("reference-not-converged")
        return
    d = np.linalg.norm(x - xo)
    beta = sum(t.value(np.ones(w.p)) if t.kind in ("l1", "group") else 0 for t in (w.t1, w.t2))
    beta += sum(2 * t.value(np.array([1.0, 0.0])) for t in (w.t1, w.t2) if t.kind == "fl" and w.p > 1)
    U = 4 * (np.linalg.norm(w.ref.grad(xo)) + beta * np.sqrt(w.p) + 1e-3)
    if so == "tos":
        s = float(res.step_size)
        # mu d^2 <= tol (d + s (L d + U + L d)) with x and z at most s tol apart
        b = tol * (1 + 2 * s * L)
        c = tol * s * U + tol * tol * s * (1 + s * L)
    else:
        if xs:
            move = np.linalg.norm(x - xs[-1])
            if not move < tol + 1e-15 * bx:
                raise Violation("dishonest-success", "%s: success although the last step moved x by %.3g (tol %g)" % (so, move, tol))
        if w.opt["line_search"] and fired_at not in ([], [len(xs)]):
            return  # the steps were made tiny by earlier failures, so that a small change means little
        if w.Lop.startswith("diff"):
            nL = 2.0
        else:
            nL = 1.0
        s1 = min(w.opt["step_size"], 0.1 / L)
        s2 = min(w.opt["step_size2"] or 0.5 * w.opt["step_size"], 0.1 / L)
        b = tol * (1 / s1 + L + nL)
        c = tol * (1 / s2 + nL) * U + b * tol
    bound = 3 * (b / mu + np.sqrt(c / mu)) + 1e-7 * (1 + bx) / min(mu, 1)
    run.counts["%s:slack>=1e%d" % (so, int(np.floor(np.log10(bound / max(d, 1e-12)))))] += 1
    if not d <= bound:
        raise Violation("dishonest-success", "%s: success (certificate %.3g, tol %g, step %s) at distance %.3g from the optimum (allowed: %.3g)" % (so, crit, tol, res.step_size, d, bound))


def floor(F, L, bx):
    return 20 * np.sqrt(2.2e-16 * (1 + F) * 2 * L) + 1e-9 * L * (1 + bx)


def stationary(w, src):
    """A start at which the smooth part alone, or the first proximal step, sees nothing to do."""
    x = np.zeros(w.p)
    y, t = x.copy(), 1.0
    for _ in range(5000):
        xn = y - w.ref.grad(y) / w.L
        if (y - xn).dot(xn - x) > 0:
            t, y2 = 1.0, xn
        else:
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            y2 = xn + (t - 1) / tn * (xn - x)
            t = tn
        x, y = xn, y2
    if w.solver == "tos" and w.t2.kind == "l1" and w.opt["step_size"] is not None:
        beta = w.t2.value(np.ones(1))
        return x + w.opt["step_size"] * beta * np.sign(x)
    return x


def spoil(name, out, val, what, pos):
    if name in ("prox1", "prox2"):
        o = np.array(out, dtype=float)
        if what == "both":
            o[...] = val
        else:
            o.flat[pos % o.size] = val
        return o
    if name == "deriv":
        o = np.array(out, dtype=float)
        if what == "both":
            o[...] = val
        else:
            o.flat[pos % o.size] = val
        return o
    if name == "jac":
        if what == "value":
            return None
        o = np.array(out, dtype=float)
        o.flat[pos % o.size] = val
        return o
    if isinstance(out, tuple):
        f, g = out
        g = np.array(g, dtype=float)
        if what in ("gradient", "both"):
            g.flat[pos % g.size] = val
        if what in ("value", "both"):
            f = val
        return f, g
    return val if what in ("value", "both") else None
