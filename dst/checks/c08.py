"""C08: feasibility of stochastic Frank-Wolfe, active-set bookkeeping."""
import numpy as np

from dst import sfw
from dst.core import Violation

RUNS = {"quick": 24000, "thorough": 400000}
RULE = ("a run draws data, constraint set, start, variant, oracle, batch size, step rule (incl. adversarial user steps in [0,1]), a sampling policy and possibly kills "
        "in user code followed by restarts from the last iterate; non-trivial: the batch sequence is not the identity or a fault fired")
REAL = ["copt.randomized.minimize_sfw", "copt.frank_wolfe.update_active_set", "copt.constraint linear oracles", "copt.utils.sample_batches"]
STUB = ["np.random.randint/choice (seeded scheduler)", "user callback, step rule, derivative and oracle wrappers"]
ASSUMPTIONS = ["pure-Python fallback of njit (numba is not installed)", "membership tested to 1e-9 relative"]
LEVEL_NOTE = ("seeded search over batch sequences, step policies and kills with an invariant checked at every callback of real minimize_sfw; no completeness claim")
setup = sfw.setup
TOL = 1e-9


def run(run):
    s = sfw.generate(run)
    for x0, life in sfw.lives(run, s):
        check(run, s, life)


def check(run, s, life):
    if life.error is not None:
        if isinstance(life.error, ValueError) and sfw.too_large(s, life):
            run.probe("step-rejected")
        else:
            raise Violation("unexpected-exception", "%s: %s" % (type(life.error).__name__, life.error))
    pts = [(k, x, a) for k, (x, a) in enumerate(life.marks)]
    if life.res is not None:
        pts.append(("result", np.asarray(life.res.x), None))
    for k, x, act in pts:
        bad = sfw.infeasibility(s, x)
        if not bad <= TOL * 10:
            raise Violation("infeasible", "iterate %s is outside the set by %s: %s" % (k, bad, x))
        if s.lmo_variant == "pairwise" and act is not None and k != "result":
            check_active(s, k, x, act)
            run.probe("active-checked")


def check_active(s, k, x, act, positive=False):
    w = np.array(list(act.values()), dtype=float)
    if len(w) == 0 or w.min() < -1e-12 or abs(w.sum() - 1) > 1e-9:
        raise Violation("weights", "iterate %s: active-set weights %s" % (k, w.tolist()))
    if positive and w.min() <= 0:
        raise Violation("zero-weight", "iterate %s: active set keeps a vertex of weight %g" % (k, w.min()))
    y = np.zeros(s.p)
    for (sign, idx), wt in act.items():
        y[int(idx)] += float(sign) * s.radius * wt
    if np.abs(y - x).max() > 1e-9 * (1 + s.radius):
        raise Violation("active-set", "iterate %s: active set describes %s, iterate is %s" % (k, y, x))
