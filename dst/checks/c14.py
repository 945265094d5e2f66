"""C14: exceptions raised by user code at arbitrary calls; nothing the caller owns is touched."""
import os
import sys
import warnings

import numpy as np

from dst import core
from dst import problems as pb
from dst import world
from dst.core import GUARD, Violation, hx

RUNS = {"quick": 15000, "thorough": 150000}
RULE = ("a run draws a solver and a problem, executes it once undisturbed, then lets user code raise at one to three drawn calls (any function, any index, any exception type) in successive "
        "calls that share all objects, and finally repeats the call with the same objects; "
        "one run in five interrupts calls between two lines of the library first; one run in eight instead makes a drawn history of direct calls of losses, penalties and sets, then repeats it in another order on fresh objects; "
        "non-trivial: at least one exception was raised, or calls were reordered")
REAL = ["all solvers", "losses, penalties, constraint sets"]
STUB = ["wrappers of every user-supplied function, which raise the injected exceptions"]
ASSUMPTIONS = ["StopIteration is not raised inside linear operators (SciPy wraps them)", "private attributes (leading underscore) of the caller's objects may be used as caches"]
LEVEL_NOTE = ("seeded search over failure points and exception types in all solvers, with exact comparison of arguments, exception identity and later results; no completeness claim")
setup = world.setup


class UserAbort(BaseException):
    pass


class UserError(Exception):
    pass


EXC = [UserError, ValueError, KeyboardInterrupt, UserAbort, StopIteration, MemoryError, FloatingPointError, IndexError, AttributeError, TypeError, SystemExit, GeneratorExit,
       ZeroDivisionError, RuntimeWarning, OverflowError, np.linalg.LinAlgError, NotImplementedError, AssertionError]


class Bomb:
    """Records calls and raises at the drawn one."""

    def __init__(self, at=None, exc=None, where="before"):
        self.at, self.exc, self.where = at, exc, where
        self.rec = world.Recorder()
        self.n = 0
        self.raised = None

    def __call__(self, name, fn, *a, **k):
        if self.raised is not None:
            raise Violation("swallowed", "%s was called after user code raised %r" % (name, self.raised))
        i = self.n
        self.n += 1
        if self.n > 60000:
            raise Violation("unbounded", "more than 60000 calls")
        if i == self.at and self.where == "before":
            self._raise(name)
        out = self.rec(name, fn, *a, **k)
        if i == self.at:
            self._raise(name)
        return out

    def _raise(self, name):
        e = self.exc("injected into " + name)
        self.raised = (name, e)
        raise e


COPT = tuple({os.path.join(r, "copt") + os.sep for r in (core.REPO, os.path.realpath(core.REPO))})


def ambient():
    """Global settings of the process that are the caller's."""
    return np.geterr(), np.geterrcall(), [repr(f) for f in warnings.filters], sys.getrecursionlimit()


class Interrupt:
    """KeyboardInterrupt (Ctrl-C) before the drawn line executed inside copt; without a line: just counts them."""

    def __init__(self, at=None):
        self.at, self.n, self.raised = at, 0, None

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(COPT):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            if self.n == self.at:
                self.raised = ("line %d of %s" % (frame.f_lineno, os.path.basename(frame.f_code.co_filename)), KeyboardInterrupt("Ctrl-C"))
                self.n += 1
                raise self.raised[1]
            self.n += 1
        return self.local


def execute(w, u, bomb, max_iter, tol, seed, trace=None):
    """(result, exception)"""
    np.random.seed(seed)
    GUARD.start()
    if trace is not None:
        sys.settrace(trace)
    try:
        return w.solve(u, bomb, max_iter=max_iter, tol=tol), None
    except Violation:
        raise
    except BaseException as e:
        return None, e
    finally:
        sys.settrace(None)
        GUARD.stop()


def direct_ops(w, u):
    """Names and calls of everything the caller's objects offer, as functions of (objects, x, y, t)."""
    ops = []
    if w.lossk != "none":
        ops += [("loss", lambda u, x, y, t: u["loss"](x)), ("f_grad", lambda u, x, y, t: u["loss"].f_grad(x)),
                ("f", lambda u, x, y, t: u["loss"].f_grad(x, return_gradient=False)),
                ("lipschitz", lambda u, x, y, t: u["loss"].lipschitz if min(w.n, w.p) > 1 and w.A.any() else None)]
        if w.lossk != "huber":
            ops += [("max_lipschitz", lambda u, x, y, t: u["loss"].max_lipschitz),
                    ("deriv", lambda u, x, y, t: u["loss"].partial_deriv(np.resize(x, w.n), u["b"]))]
        if w.lossk == "log":
            ops += [("hessian_mv", lambda u, x, y, t: u["loss"].hessian_mv(x)(y))]
    for k in ("pen1", "pen2", "con"):
        o = u.get(k)
        if o is None:
            continue
        ops += [(k + ".prox", lambda u, x, y, t, k=k: u[k].prox(x, t))] * 3
        if callable(o):
            ops.append((k, lambda u, x, y, t, k=k: u[k](x)))
        if hasattr(o, "lmo"):
            ops += [(k + ".lmo", lambda u, x, y, t, k=k: u[k].lmo(x, y, {(q % 2, q): 1.0 / 8 for q in range(8)}))] * 2
        if hasattr(o, "lmo_pairwise"):
            ops.append((k + ".lmo_pairwise", lambda u, x, y, t, k=k: u[k].lmo_pairwise(x, y, {(1.0, 0): 0.25, (-1.0, w.p - 1): 0.75})))
    return ops


def fp(v):
    if isinstance(v, (tuple, list)):
        return tuple(fp(q) for q in v)
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    return repr(v)


def run_direct(run):
    """A history of direct calls: each result depends on the arguments alone, nothing handed in or out changes later."""
    src = run.src
    w = world.World(run, ["pgd", "tos", "fw", "fw", "apgd"], tv2d=True, cons=("l1", "simplex", "trace"),
                    terms=world.SINGLE)
    u = w.fresh()
    s0 = w.state(u)
    ops = direct_ops(w, u)
    r = src.rand()
    pool = [pb.bulk(r, w.p) * src.choice([0.1, 1.0, 10.0]) for _ in range(3)]
    pool.append(np.zeros(w.p))
    pool.append(np.full(w.p, src.choice([1.0, 4.0, 0.3]) / w.p))
    results, history = [], []
    seed = src.seed()
    GUARD.start()
    try:
        for _ in range(src.int(3, 12)):
            name, f = src.choice(ops)
            i, j, t = src.draw(len(pool)), src.draw(len(pool)), src.choice([0.5, 0.1, 2.0, 1e-3])
            before = [q.tobytes() for q in pool]
            np.random.seed(seed)
            GUARD.reset()
            out = f(u, pool[i], pool[j], t)
            if [q.tobytes() for q in pool] != before:
                raise Violation("modified", "%s changed an array it was given" % name)
            compare(w, s0, w.state(u), "a direct call of " + name)
            results.append((name, out, fp(out)))
            history.append((f, pool[i].copy(), pool[j].copy(), t))
            for nm, o, h in results:
                if fp(o) != h:
                    raise Violation("modified", "%s changed what an earlier call of %s had returned" % (name, nm))
            if isinstance(out, np.ndarray) and out.shape == (w.p,) and src.chance(40):
                pool.append(out)  # .. fed back in, as a solver does ..
        order = list(range(len(history)))
        src.rand().shuffle(order)
        v = w.fresh()
        for k in order:
            f, x, y, t = history[k]
            np.random.seed(seed)
            GUARD.reset()
            if fp(f(v, x, y, t)) != results[k][2]:
                raise Violation("residue", "%s returns something else on fresh objects and in another order of calls" % results[k][0])
    finally:
        GUARD.stop()
    run.fault("reordered-calls", "direct")
    run.log("direct", len(history), [q[0] for q in results])


def quiet():
    """The simulator's own warning filters, the same at the start of every run."""
    warnings.resetwarnings()
    warnings.simplefilter("ignore")


def cleanup():
    np.seterr(all="ignore")
    quiet()


def run(run):
    src = run.src
    if src.chance(12):
        return run_direct(run)
    w = world.World(run, world.ALL, tv2d=True)
    max_iter = src.int(1, 6)
    tol = src.choice([1e-6, 0.0, 1e-2])
    seed = src.seed()
    ref = Bomb()
    u0 = w.fresh()
    s0 = w.state(u0)
    # .. settings the caller chose (not those of the simulator, which hide everything) ..
    np.seterr(divide="warn", over="ignore", under="ignore", invalid="warn")
    quiet()
    env = ambient()
    r0, e0 = execute(w, u0, ref, max_iter, tol, seed)
    if e0 is not None:
        raise Violation("unexpected-exception", "%s: %s: %s" % (w.solver, type(e0).__name__, e0))
    if ambient() != env:
        raise Violation("residue", "%s: floating-point error handling or warning filters are left changed after a normal return" % w.solver)
    compare(w, s0, w.state(u0), "a normal return")
    u = w.fresh()
    if src.chance(20):
        # .. Ctrl-C between any two lines of the library ..
        count = Interrupt()
        execute(w, w.fresh(), Bomb(), max_iter, tol, seed, count)
        for _ in range(src.weighted([(1, 3), (2, 1)])):
            stop = Interrupt(src.draw(max(1, count.n)))
            bomb = Bomb()
            res, e = execute(w, u, bomb, max_iter, tol, seed, stop)
            if stop.raised is None:
                run.probe("interrupt-too-late")  # (something private is cached)
                continue
            run.fault("interrupt", w.solver)
            if e is not stop.raised[1]:
                raise Violation("not-propagated", "%s: interrupted at %s; the solver %s" % (w.solver, stop.raised[0], "returned normally" if e is None else "raised %r" % e))
            compare(w, s0, w.state(u), "an interrupt at " + stop.raised[0])
            if ambient() != env:
                raise Violation("residue", "%s: floating-point error handling or warning filters are left changed after an interrupt" % w.solver)
    for _ in range(src.weighted([(1, 6), (2, 2), (3, 1)])):
        exc = src.choice(EXC)
        bomb = Bomb(src.draw(ref.n), exc, src.choice(["before", "after"]))
        res, e = execute(w, u, bomb, max_iter, tol, seed)
        if bomb.raised is None:
            # .. same objects, same state, fewer calls than before? ..
            raise Violation("residue", "%s: %d calls, the first execution made %d" % (w.solver, bomb.n, ref.n))
        name, injected = bomb.raised
        run.fault("raise:" + exc.__name__, name)
        if e is not injected:
            raise Violation("not-propagated", "%s: %s raised %r at call %d; the solver %s" % (
                w.solver, name, injected, bomb.at, "returned normally" if e is None else "raised %r" % e))
        compare(w, s0, w.state(u), "%s raised %s at call %d" % (name, exc.__name__, bomb.at))
        if ambient() != env:
            raise Violation("residue", "%s: floating-point error handling or warning filters are left changed after an exception" % w.solver)
    again = Bomb()
    res, e = execute(w, u, again, max_iter, tol, seed)
    if e is not None:
        raise Violation("residue", "%s: repeated call raised %s: %s" % (w.solver, type(e).__name__, e))
    run.log(w.solver, ref.n, hx(res.x))
    if again.rec.digest() != ref.rec.digest():
        raise Violation("residue", "%s: the repeated call makes other calls than a first call" % w.solver)
    if world.result_state(res) != world.result_state(r0):
        raise Violation("residue", "%s: the repeated call returns something else than a first call" % w.solver)
    compare(w, s0, w.state(u), "a normal return")


def compare(w, a, b, when):
    if a == b:
        return
    diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    raise Violation("modified", "%s: %s changed after %s" % (w.solver, ", ".join(diff), when))
