"""C13: cancellation through the callback."""
import numpy as np

from dst import world
from dst.core import GUARD, Violation, hx

RUNS = {"quick": 14000, "thorough": 200000}
RULE = ("a run draws a deterministic solver and a problem, executes it once undisturbed, then cancels it at a drawn callback (any index up to and beyond the last), and a third time with arbitrary "
        "other return values; non-trivial: the cancellation happened, or another return value was delivered")
REAL = ["copt.proximal_gradient", "copt.frank_wolfe", "copt.splitting", "losses, penalties, constraint sets"]
STUB = ["user callback and wrappers of objective, prox, oracle and step policy"]
ASSUMPTIONS = ["only the object False cancels (numpy.False_ is left open)", "minimize_frank_wolfe may call the callback once more on its way out"]
LEVEL_NOTE = ("seeded search over cancellation points and callback return values of the real solvers, with exact comparison against the undisturbed run; no completeness claim")
setup = world.setup


class Log:
    """Calls of one execution; the callback decides what to return."""

    def __init__(self, answer):
        self.answer = answer
        self.calls = []  # (name, fingerprint)
        self.xs = []
        self.cancelled = None

    def hook(self, name, fn, *a, **k):
        GUARD.reset()
        if self.cancelled is not None and name != "callback":
            raise Violation("call-after-cancel", "%s was called after the callback returned False (at callback %d)" % (name, self.cancelled))
        if len(self.calls) > 50000:
            raise Violation("unbounded", "more than 50000 calls")
        if name != "callback":
            self.calls.append((name,) + tuple(np.asarray(v, dtype=float).tobytes() for v in a if isinstance(v, np.ndarray)))
        return fn(*a, **k)

    def callback(self, dl):
        x = np.array(dl["x"], dtype=float)
        if self.cancelled is not None:
            if not np.array_equal(x, self.xs[self.cancelled], equal_nan=True):
                raise Violation("call-after-cancel", "iterate moved after the callback returned False")
            self.extra += 1
            if self.extra > 1:
                raise Violation("call-after-cancel", "callback called %d times after it returned False" % self.extra)
            return None
        self.calls.append(("callback", x.tobytes()))
        self.xs.append(x)
        r = self.answer(len(self.xs) - 1)
        if r is False:
            self.cancelled = len(self.xs) - 1
            self.extra = 0
        return r


def execute(w, log, max_iter, tol):
    np.random.seed(12345)
    GUARD.start()
    try:
        return w.solve(w.fresh(), log.hook, max_iter=max_iter, tol=tol, callback=log.callback)
    except Violation:
        raise
    except Exception as e:
        raise Violation("unexpected-exception", "%s: %s: %s" % (w.solver, type(e).__name__, e))
    finally:
        GUARD.stop()


def work(log):
    """Calls of the iterations proper (the linear oracle of Frank-Wolfe also decides whether there is one)."""
    return sum(1 for c in log.calls if c[0] not in ("callback", "lmo"))


OTHERS = [None, 0, 0.0, "", (), [], {}, True, 1, "False", -1, float("nan"), np.zeros(3), np.ones(2, bool), b""]


def run(run):
    src = run.src
    w = world.World(run, world.FULL + ["fw"], tv2d=True)
    max_iter = src.int(1, 14)
    tol = src.choice([1e-6, 0.0, 1e-2, 1.0])
    ref = Log(lambda k: None)
    r0 = execute(w, ref, max_iter, tol)
    n = len(ref.xs)
    if src.chance(25):
        # .. one more iteration is one more callback ..
        more = Log(lambda k: None)
        r1 = execute(w, more, max_iter + 1, tol)
        if more.calls[:len(ref.calls) - (w.solver == "fw")] != ref.calls[:len(ref.calls) - (w.solver == "fw")]:
            raise Violation("other-value", "%s: the budget changes the iterations before it is used up" % w.solver)
        go_on = not getattr(r0, "success", False) and not getattr(r1, "success", False) and work(more) > work(ref)
        if not n <= len(more.xs) <= n + 1 or (go_on and len(more.xs) != n + 1):
            raise Violation("callback-skipped", "%s: %d callbacks in %d iterations, %d with one iteration more" % (w.solver, n, max_iter, len(more.xs)))
    # .. cancelled at callback k ..
    k = src.draw(n + 2)
    early = [src.choice(OTHERS) for _ in range(min(k, 3))]
    log = Log(lambda j: False if j == k else (early[j % len(early)] if early else None))
    res = execute(w, log, max_iter, tol)
    run.log(w.solver, n, k, max_iter, hx(res.x))
    run.sched(k, n)
    if k >= n:
        run.probe("cancel-too-late")
        if log.cancelled is not None or log.calls != ref.calls or world.result_state(res) != world.result_state(r0):
            raise Violation("other-value", "%s: return values other than False changed the run" % w.solver)
    else:
        run.fault("cancel", w.solver)
        if log.cancelled is None or log.xs[:k + 1] and len(log.xs) != k + 1:
            raise Violation("not-stopped", "%s: %d callbacks, False returned at %d" % (w.solver, len(log.xs), k))
        if log.calls != ref.calls[:len(log.calls)]:
            raise Violation("other-value", "%s: the run before the cancellation differs from the undisturbed run" % w.solver)
        x = np.asarray(res.x, dtype=float)
        if x.shape != log.xs[k].shape or not np.array_equal(x, log.xs[k], equal_nan=True):
            raise Violation("wrong-iterate", "%s: cancelled at callback %d, returned %s, the callback saw %s" % (w.solver, k, x, log.xs[k]))
        # .. the callback of Frank-Wolfe after its last iteration cannot cancel anything ..
        late = w.solver == "fw" and k == n - 1
        if not late and bool(getattr(res, "success", False)):
            raise Violation("success-claimed", "%s: cancelled at callback %d of %d, success=%s" % (w.solver, k, n, res.success))
    # .. any other value changes nothing ..
    vals = [src.choice(OTHERS) for _ in range(src.int(1, 4))]
    run.nontrivial = True
    log = Log(lambda j: vals[j % len(vals)])
    res = execute(w, log, max_iter, tol)
    if log.calls != ref.calls or world.result_state(res) != world.result_state(r0):
        raise Violation("other-value", "%s: callback returning %r instead of None changed the run" % (w.solver, vals))
