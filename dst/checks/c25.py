"""C25: the documented ways of passing the gradient give the same run, also under faults and cancellation."""
import hashlib

import numpy as np

from dst import seams, world
from dst.checks import c15, c27
from dst.core import GUARD, Violation, hx

RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("a run draws a problem for proximal gradient (plain, accelerated) or Frank-Wolfe and executes it with the gradient as a callable and together with the value (bitwise comparison of iterates, evaluation points "
        "and result; with non-finite answers in part of the space, extra arguments, cancellation, another solve nested in the callback), or with finite differences (jac=False or '2-point'; the iterates must "
        "follow the run with the true gradient within the error of the differences); non-trivial: a fault, a nested solve, or finite differences")
REAL = ["copt.utils.build_func_grad", "copt.proximal_gradient", "copt.frank_wolfe", "losses, penalties, constraint sets", "scipy.optimize (memoisation, finite differences)"]
STUB = ["user callback and oracle wrappers"]
ASSUMPTIONS = ["the user's function is deterministic: the same point gets the same answer", "finite differences: bounds for forward differences of a function with Lipschitz gradient, steps at most 1/L"]
LEVEL_NOTE = "seeded search over objectives, faults, cancellations and nestings with bitwise comparison of the exact modes and an error bound for finite differences; no completeness claim"
setup = c15.setup


def point(x):
    return c27.canon(np.asarray(x, dtype=float) + 0.0)  # 0.0 and -0.0 are one point


class Points:
    """Where the user's functions were evaluated (consecutive repetitions count once) and what the callback saw."""

    def __init__(self):
        self.pts, self.xs, self.other = [], [], []
        self.n = 0
        self.bad_args = None
        self.expect = ()

    def at(self, x):
        k = point(x)
        if not self.pts or self.pts[-1] != k:
            self.pts.append(k)


def run(run):
    src = run.src
    mode = src.weighted([("exact", 6), ("differences", 4)])
    w = world.World(run, ["pgd", "apgd", "fw"], tv2d=False, scaled=mode == "exact", loss_kinds=None)
    so = w.solver
    budget, tol = src.int(1, 25), src.choice([1e-8, 0.0, 1e-3])
    run.sched(mode, so)
    run.log(mode, so)
    (exact if mode == "exact" else differences)(run, src, w, budget, tol)


def build(w, u, P, style, args, spoil, inner=None, at=None, cancel=None):
    """(fun, jac, callback) for one way of passing the gradient."""
    loss = u["loss"]
    P.expect = args

    def both(x, extra):
        GUARD.reset()
        P.n += 1
        if P.n > 20000:
            raise c27.Enough()
        if extra != P.expect:
            P.bad_args = extra
        P.at(x)
        f, g = loss.f_grad(x)
        if extra and isinstance(extra[0], float):
            f, g = extra[0] * f, extra[0] * g
        if spoil is not None:
            f, g = spoil("fun", hashlib.sha256(point(x)).digest(), (f, g))
        return f, g

    def value(x, *extra):
        return both(x, extra)[0]

    def grad(x, *extra):
        return both(x, extra)[1]

    def pair(x, *extra):
        return both(x, extra)

    def cb(dl):
        P.xs.append(np.array(dl["x"], dtype=float))
        if inner is not None and len(P.xs) - 1 == at:
            inner()
        if cancel is not None and len(P.xs) > cancel:
            return False

    fun = {"pair": pair, "callable": value}.get(style, value)
    jac = {"pair": True, "callable": grad, "false": False, "2-point": "2-point"}[style]
    return fun, jac, cb


def solve(w, u, P, fun, jac, cb, budget, tol, args, **over):
    import copt

    def hook(name, fn, *a, **k):
        GUARD.reset()
        if name in ("lmo", "prox1"):
            P.other.append([np.array(v, dtype=float) for v in a[:2] if v is not None])
        return fn(*a, **k)

    so = w.solver
    kw = dict(args=args)
    kw.update(over)
    # .. world.solve wraps the loss; here the objective is given in the style under test ..
    before = copt.minimize_proximal_gradient, copt.minimize_frank_wolfe
    orig_pg, orig_fw = copt.proximal_gradient.minimize_proximal_gradient, copt.frank_wolfe.minimize_frank_wolfe

    def pg(_fun, x0, **k):
        k["jac"] = jac
        return orig_pg(fun, x0, **k)

    def fw(_fun, x0, lmo, **k):
        k["jac"] = jac
        return orig_fw(fun, x0, lmo, **k)

    copt.minimize_proximal_gradient, copt.minimize_frank_wolfe = pg, fw
    GUARD.start()
    try:
        return "ok", w.solve(u, hook, max_iter=budget, tol=tol, callback=cb, **kw)
    except Violation:
        raise
    except c27.Enough:
        return "Enough", None
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e), None
    finally:
        GUARD.stop()
        copt.minimize_proximal_gradient, copt.minimize_frank_wolfe = before


def exact(run, src, w, budget, tol):
    so = w.solver
    spoil = c27.Spoiler(run, ["fun"], src.choice([3, 10, 30]), src.choice(c27.BAD), src.choice(["value", "gradient", "both"]), bytes([src.draw(256)])) if src.chance(40) else None
    cancel = src.draw(budget) if src.chance(20) else None
    nested = src.draw(4) if src.chance(25) else None
    args = src.choice([(), (0.5,), ("a", None), ([1],), (0.25, 3)])
    before = (src.choice([0.5, 0.125]),) if src.chance(30) and args and isinstance(args[0], float) else None
    run.cfg = dict(run.cfg, mode="exact", before=before, budget=budget, tol=tol, cancel=cancel, nested=nested, args=args, spoiled=spoil is not None)
    run.sched(cancel, nested, args, budget, before)
    out = {}
    for style in ("callable", "pair"):
        u = w.fresh()
        P = Points()
        inner = None
        if nested is not None and style == "pair":
            def inner():
                # .. another solve of the same kind, on another objective, in the middle of this one ..
                u2 = w.fresh()
                P2 = Points()
                f2, j2, cb2 = build(w, u2, P2, "pair", args, None)
                u2["x0"] = u2["x0"] if w.cons is not None else u2["x0"] + 1
                r = w.solver
                solve(w, u2, P2, f2, j2, cb2, 3, 1e-3, args)
                run.probe("nested")
        fun, jac, cb = build(w, u, P, style, args, spoil, inner, nested, cancel)
        if before is not None and style == "pair":
            # .. the same function objects have been used with other arguments ..
            P.expect = before
            _, _, cb0 = build(w, u, Points(), style, before, None)
            solve(w, w.fresh(), P, fun, jac, cb0, src.int(0, 3), tol, before)
            if P.bad_args is not None:
                raise Violation("arguments", "%s: args=%r reached the user's function as %r" % (so, before, P.bad_args))
            P.__init__()
            P.expect = args
            run.probe("reused-function")
        out[style] = solve(w, u, P, fun, jac, cb, budget, tol, args) + (P,)
    (oa, ra, A), (ob, rb, B) = out["callable"], out["pair"]
    run.log(oa, ob, len(A.pts), len(B.pts), hx(A.xs[-1]) if A.xs else None)
    if cancel is not None:
        run.fault("cancel", cancel)
    if nested is not None:
        run.fault("nested", nested)
    if "Enough" in (oa, ob):
        run.probe("cut-short")
        return
    for P in (A, B):
        if P.bad_args is not None:
            raise Violation("arguments", "%s: args=%r reached the user's function as %r" % (so, args, P.bad_args))
    if spoil is None and (oa != "ok" or ob != "ok"):
        raise Violation("unexpected-exception", "%s: %s / %s" % (so, oa, ob))
    if spoil is None:
        scale = args[0] if args and isinstance(args[0], float) else 1.0
        for style, P in (("callable", A), ("pair", B)):
            forward(w, P, scale, style)
    if oa != ob:
        raise Violation("differs", "%s: gradient as a callable: %s, together with the value: %s" % (so, oa, ob))
    for i, (p, q) in enumerate(zip(A.xs, B.xs)):
        if c27.canon(p) != c27.canon(q):
            raise Violation("differs", "%s: iterate %d is %s with the gradient as a callable, %s together with the value" % (so, i, p, q))
    if len(A.xs) != len(B.xs):
        raise Violation("differs", "%s: %d callbacks with the gradient as a callable, %d together with the value" % (so, len(A.xs), len(B.xs)))
    if set(A.pts) != set(B.pts) and not any(np.isnan(np.frombuffer(p)).any() for p in A.pts + B.pts):
        raise Violation("differs", "%s: the objective is evaluated at other points with the gradient as a callable than together with the value" % so)
    if ra is not None and repr(world.result_state(ra)) != repr(world.result_state(rb)):
        raise Violation("differs", "%s: another result with the gradient as a callable than together with the value" % so)


def forward(w, P, scale, style):
    """Every gradient that reaches the proximal operator or the oracle is the one at a point where the objective was evaluated."""
    pts = list({q: np.frombuffer(q) for q in P.pts}.values())
    if not pts or not all(np.all(np.isfinite(y)) for y in pts):
        return
    Y = np.array(pts)
    G = scale * np.array([w.ref.grad(y) for y in pts])
    gm = 1 + np.abs(G).max() + np.abs(Y).max() * w.L
    for (v, t) in P.other:
        v = np.ravel(v)
        if w.solver == "fw":
            # .. minus the gradient, and where it was taken ..
            d = np.abs(G + v).max(axis=1) / gm + np.abs(Y - np.ravel(t)).max(axis=1) / (1 + np.abs(Y).max())
        else:
            t = float(t)
            d = np.abs(Y - t * G - v).max(axis=1) / (1 + np.abs(Y).max() + t * gm)
        if np.all(np.isfinite(v)) and not d.min() <= 1e-9:
            raise Violation("wrong-gradient", "%s, gradient %s: %s is called with %s, which belongs to none of the %d points where the objective was evaluated" % (
                w.solver, "as a callable" if style == "callable" else "together with the value", "the oracle" if w.solver == "fw" else "the proximal operator", v, len(pts)))


def differences(run, src, w, budget, tol):
    so = w.solver
    style = src.choice(["false", "2-point"])
    eps = src.choice([None, 1e-8, 1e-6, 1e-5, "vector"])
    over = {}
    if eps == "vector":
        over["eps"] = np.full(w.p, 1e-7) * (1 + np.arange(w.p))
    elif eps is not None:
        over["eps"] = eps
    h = float(np.max(over.get("eps", 1e-8)))
    hmin = float(np.min(over.get("eps", 1e-8)))
    args = src.choice([(), ("a",)])
    cancel = src.draw(budget) if src.chance(15) else None
    if so != "fw":
        w.opt["step"] = "callable" if so == "pgd" and src.chance(70) else w.opt["step"]
    run.cfg = dict(run.cfg, mode="differences", style=style, eps=repr(eps), budget=budget, tol=tol, args=args)
    run.nontrivial = True
    run.faults["finite-differences"] += 1
    u = w.fresh()
    D = Points()
    fun, jac, cb = build(w, u, D, style, args, None, cancel=cancel)
    od, rd = solve(w, u, D, fun, jac, cb, budget, tol, args, **over)
    run.log(so, style, od, len(D.xs), hx(D.xs[-1]) if D.xs else None)
    run.sched(so, style, eps, cancel)
    if od != "ok":
        raise Violation("finite-differences", "%s with jac=%r: %s" % (so, jac, od))
    if D.bad_args is not None:
        raise Violation("arguments", "%s: args=%r reached the user's function as %r" % (so, args, D.bad_args))
    # .. error of one forward difference ..
    pts = [np.frombuffer(p) for p in D.pts]
    fmax = max(abs(w.ref.value(x)) for x in pts)
    L = w.L * (2 if w.lossk == "huber" else 1)
    delta = np.sqrt(w.p) * (L * h + 1e-14 * (1 + fmax + L * max(np.abs(x).max() for x in pts)) / hmin * 10)
    if so == "fw":
        for (ug, x) in D.other:
            g = w.ref.grad(x)
            err = np.linalg.norm(ug + g)
            if not err <= delta:
                raise Violation("finite-differences", "fw with jac=%r, eps=%r: the oracle was asked for a gradient off by %.3g (allowed: %.3g)" % (jac, eps, err, delta))
        run.probe("fd-fw")
        return
    if so == "pgd" and w.opt["step"] == "callable":
        # .. proximal steps of length 1/L do not amplify errors ..
        u = w.fresh()
        E = Points()
        fun, jac2, cb = build(w, u, E, "callable", args, None, cancel=cancel)
        oe, re = solve(w, u, E, fun, jac2, cb, budget, tol, args)
        if oe != "ok":
            raise Violation("unexpected-exception", "%s: %s" % (so, oe))
        for i, (x, y) in enumerate(zip(E.xs, D.xs)):
            slack = (i + 1) * (delta / w.L + 1e-12 * (1 + np.linalg.norm(x)))
            if not np.linalg.norm(x - y) <= slack:
                raise Violation("finite-differences", "pgd with jac=%r, eps=%r: iterate %d is off by %.3g (allowed: %.3g)" % (jac, eps, i, np.linalg.norm(x - y), slack))
        run.probe("fd-pgd")
        return
    # .. line search or acceleration: every step starts from a gradient that is right ..
    run.probe("fd-other")
    if cancel is None and budget >= 1:
        val = w.composite()[0]
        F0 = w.ref.value(np.asarray(w.x0, dtype=float)) + val(np.asarray(w.x0, dtype=float))
        F1 = w.ref.value(np.asarray(rd.x, dtype=float)) + val(np.asarray(rd.x, dtype=float))
        R = max(np.linalg.norm(x - np.asarray(w.x0, dtype=float)) for x in pts) + 1
        if so == "pgd" and np.isfinite(F0) and not F1 <= F0 + (budget + 1) * (delta * R + 1e-9 * (1 + abs(F0))):
            raise Violation("finite-differences", "pgd with jac=%r, eps=%r: objective went from %.9g to %.9g" % (jac, eps, F0, F1))
