"""C09: seeded runs are exactly reproducible, whatever ran before, whatever the clock, hash seed or thread."""
import random
import threading

import numpy as np

from dst import seams, world
from dst.core import GUARD, Violation

RUNS = {"quick": 8000, "thorough": 150000}
RESAMPLE = 0.5  # share of the seeds that are executed again in another process with another hash seed
NONDETERMINISM_IS_VIOLATION = True
RULE = ("a run draws a solver and a problem, executes it twice from the same state of NumPy's generator (non-stochastic solvers: from different states) with a perturbed process history, "
        "clock, entropy pool and thread in between, and compares results and oracle calls bit by bit; half of the seeds are executed again in another process with another hash seed; "
        "non-trivial: at least one perturbation other than repeating")
REAL = ["all solvers", "copt.utils", "losses, penalties, constraint sets", "NumPy's global generator"]
STUB = ["clocks", "operating-system entropy of np.random.default_rng()", "user callback and oracle wrappers"]
ASSUMPTIONS = ["single-threaded BLAS"]
LEVEL_NOTE = ("seeded search over perturbations of everything but arguments and NumPy's generator, with exact comparison of two executions; no completeness claim")


def setup():
    seams.install_clock()
    world.setup()


def cleanup():
    seams.set_clock(None)


def execute(w, u, npseed, iters, tol, salt, thread):
    """One execution: (digest of the calls, result, exception, generator touched)."""
    out = {}

    def body():
        seams.set_clock(seams.DriftClock(1e9 + salt * 1e5, 50.0 + salt * 7, random.Random(salt)))
        seams.foreign_seed(salt)
        random.seed(salt)
        np.random.seed(npseed)
        before = np.random.get_state()
        rec = world.Recorder()
        GUARD.start()
        try:
            res = w.solve(u, rec, max_iter=iters, tol=tol)
            out["res"] = world.result_state(res)
            out["x"] = np.array(res.x, dtype=float)
            out["exc"] = None
        except Violation as v:
            out["viol"] = v
            return
        except Exception as e:
            out["res"], out["x"], out["exc"] = None, None, "%s: %s" % (type(e).__name__, e)
        finally:
            GUARD.stop()
            seams.set_clock(None)
        after = np.random.get_state()
        out["calls"] = rec.digest()
        out["n"] = rec.n
        out["after"] = (after[1].tobytes(), after[2])
        out["touched"] = not (before[2] == after[2] and np.array_equal(before[1], after[1]))

    if thread:
        t = threading.Thread(target=body)
        t.start()
        t.join()
    else:
        body()
    if "viol" in out:
        raise out["viol"]
    return out


def run(run):
    src = run.src
    w = world.World(run, world.ALL, tv2d=True)
    iters = src.int(1, 8)
    tol = src.choice([1e-6, 0.0, 1e-2])
    npseed = src.seed()
    stoch = w.solver in world.STOCH
    u = w.fresh()
    a = execute(w, u, npseed, iters, tol, 1, False)
    # .. something else happens in the process ..
    what = []
    for _ in range(src.weighted([(1, 4), (2, 2), (0, 1), (3, 1)])):
        k = src.choice(["other-solver", "advance", "same-objects-other-call", "clock"])
        what.append(k)
        if k == "other-solver":
            w2 = world.World(run, world.ALL)
            execute(w2, w2.fresh(), 7, src.int(1, 4), 1e-6, 5, False)
        elif k == "advance":
            np.random.rand(src.int(1, 700))
        elif k == "same-objects-other-call":
            execute(w, u, src.seed(), src.int(1, 4), 1e-3, 9, False)
    thread = src.chance(30)
    reuse = src.chance(40) or "same-objects-other-call" in what
    if what or thread or reuse:
        run.nontrivial = True
    for k in what:
        run.probe("perturb-" + k)
    run.probe("in-thread", int(thread))
    run.sched(what, thread, reuse)
    same_seed = stoch or src.chance(30)
    b = execute(w, u if reuse else w.fresh(), npseed if same_seed else src.seed() + 1, iters, tol, 2, thread)
    run.log("result", a["calls"], repr(a["res"]), a["exc"])
    if not stoch and (a["touched"] or b["touched"]):
        raise Violation("generator-touched", "%s read or advanced NumPy's generator" % w.solver)
    if a["exc"] != b["exc"]:
        raise Violation("differs", "%s: first execution %s, second %s (after %s)" % (w.solver, a["exc"], b["exc"], what))
    if a["calls"] != b["calls"]:
        raise Violation("differs", "%s: oracle calls of two executions from the same state differ (%d and %d calls; after %s, thread %s, reused objects %s)" % (
            w.solver, a["n"], b["n"], what, thread, reuse))
    if a["res"] != b["res"]:
        raise Violation("differs", "%s: results of two executions from the same state differ (after %s)" % (w.solver, what))
    if stoch and a["after"] != b["after"]:
        raise Violation("differs", "%s: the generator is left in different states" % w.solver)
    run.probe("compared")
