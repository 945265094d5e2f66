"""C10: feasibility and active set of Frank-Wolfe under adversarial step policies, kills and cancellations."""
import numpy as np

from dst import fw, sfw
from dst.checks.c08 import check_active
from dst.core import Violation

RUNS = {"quick": 20000, "thorough": 400000}
RULE = ("a run draws objective, set, start, variant, step policy (adversarial user policies choose 0, fractions, the exact maximum or too much), budget and possibly kills or "
        "cancellations followed by restarts; non-trivial: an adversarial policy acted or a fault fired")
REAL = ["copt.frank_wolfe", "copt.constraint linear oracles", "copt.loss"]
STUB = ["user callback, step policy, objective and oracle wrappers"]
ASSUMPTIONS = ["membership and active-set identity tested to 1e-9 relative"]
LEVEL_NOTE = ("seeded search over step policies, kills and restarts with the invariant checked at every callback and at return of real minimize_frank_wolfe; no completeness claim")
setup = fw.setup
TOL = 1e-8


def run(run):
    src = run.src
    s = fw.generate(run, ["callable", "DR", "backtracking", "sublinear"], 60)
    lives = 1 + src.weighted([(0, 6), (1, 3), (2, 1)])
    toomuch = [None]

    def policy(life):
        u, x, act, d, v, away, mx = life.lmos[-1]
        k = src.weighted([("max", 4), ("frac", 4), ("zero", 1), ("decay", 2), ("toomuch", 1)])
        run.sched(k)
        run.nontrivial = True
        if k == "max":
            return mx
        if k == "frac":
            return mx * src.choice([0.5, 0.9, 0.1])
        if k == "zero":
            run.fault("zero-step")
            return 0.0
        if k == "decay":
            return min(mx, 2.0 / (len(life.lmos) + 1))
        if s.lmo_variant != "pairwise" or v == away:
            return mx
        run.fault("step-too-large")
        toomuch[0] = mx * 1.5 + 0.01
        return toomuch[0]

    x, rep = s.x0, s.x0_rep
    run.cfg = dict(cons=s.cons, n=s.n, p=s.p, loss=s.lossk, radius=s.radius, lmo=s.lmo_variant, rule=s.rule, lives=lives)
    run.sched(s.cons, s.lmo_variant, s.rule)
    for k in range(lives):
        iters = src.int(1, 25)
        kill, stop = None, None
        if k < lives - 1:
            if src.chance(50):
                kill = src.draw(4 * iters + 2)
            else:
                stop = src.draw(iters + 1)
        toomuch[0] = None
        life = fw.simulate(run, s, x, rep, iters, src.choice([0.0, 1e-12, 1e-3]), kill, policy, stop)
        check(run, s, life, toomuch[0], stop)
        if s.lmo_variant == "pairwise":
            x, rep = fw.start(run, s)
        elif life.marks:
            x = life.marks[-1][1]


def check(run, s, life, toomuch, stop):
    # the callback sees the step before it is applied, so a cancelled run never applied it
    cancelled = stop is not None and len(life.marks) > stop
    if life.error is not None:
        if not life.lmos:
            raise Violation("unexpected-exception", "%s: %s" % (type(life.error).__name__, life.error))
        u, x, act, d, v, away, mx = life.lmos[-1]
        over = toomuch is not None or (s.rule == "sublinear" and s.lmo_variant == "pairwise" and 2.0 / (len(life.lmos) + 1) > mx - 1e-12)
        if isinstance(life.error, ValueError) and over:
            run.probe("step-rejected")
        else:
            raise Violation("unexpected-exception", "%s: %s" % (type(life.error).__name__, life.error))
    elif toomuch is not None and life.res is not None and not cancelled:
        raise Violation("not-rejected", "a step of %g beyond the admissible range was accepted" % toomuch)
    pts = list(life.marks)
    if life.res is not None:
        pts.append(("result", np.asarray(life.res.x, dtype=float), getattr(life.res, "active_set", None)))
    for k, x, act in pts:
        bad = sfw.infeasibility(s, x)
        if not bad <= TOL:
            raise Violation("infeasible", "iterate after %s oracle calls is outside the set by %s: %s" % (k, bad, x))
        if s.lmo_variant == "pairwise":
            if act is None:
                raise Violation("no-active-set", "pairwise run without active set at %s" % k)
            check_active(s, k, x, act, positive=True)
            run.probe("active-checked")
