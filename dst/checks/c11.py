"""C11: Frank-Wolfe progress from any (interrupted) state."""
import numpy as np

from dst import fw, sfw
from dst.core import Violation

RUNS = {"quick": 8000, "thorough": 120000}
RULE = ("a run draws objective, set, start, step rule, and a chain of kills/cancellations; after the last one an uninterrupted run is measured against the classical bound "
        "(vanilla) or against a gap target (pairwise); non-trivial: at least one interruption fired, or a drop step happened in a pairwise run")
REAL = ["copt.frank_wolfe", "copt.constraint linear oracles", "copt.loss"]
STUB = ["user callback, objective and oracle wrappers"]
ASSUMPTIONS = ["bound 2 L diam^2/(k+2) with factor 1 for DR and sublinear steps, 4 for backtracking (plus its float32-eps tolerance per step)",
               "pairwise target only on strongly convex problems with condition number below 50 and at most 4 features",
               "the optimum is estimated from above by an independent projected gradient method, which can only make the check more lenient"]
LEVEL_NOTE = ("bounded liveness under simulated interruptions of real minimize_frank_wolfe, measured against the textbook bound with an independent optimum; no completeness claim")
setup = fw.setup


def run(run):
    src = run.src
    s = fw.generate(run, ["DR", "backtracking", "sublinear"], 40)
    if s.lmo_variant == "pairwise" and s.rule == "sublinear":
        s.rule = "DR"
    lives = 1 + src.weighted([(0, 5), (1, 3), (2, 2)])
    x, rep = s.x0, s.x0_rep
    run.cfg = dict(cons=s.cons, n=s.n, p=s.p, loss=s.lossk, alpha=s.alpha, radius=s.radius, lmo=s.lmo_variant, rule=s.rule, lives=lives)
    run.sched(s.cons, s.lmo_variant, s.rule)
    for k in range(lives - 1):
        iters = src.int(1, 20)
        kill, stop = (src.draw(4 * iters + 2), None) if src.chance(50) else (None, src.draw(iters + 1))
        life = fw.simulate(run, s, x, rep, iters, 0.0, kill, None, stop)
        if life.error is not None:
            raise Violation("unexpected-exception", "%s: %s" % (type(life.error).__name__, life.error))
        if s.lmo_variant == "pairwise":
            x, rep = fw.start(run, s)
        elif life.marks:
            x = life.marks[-1][1]
    # .. no more interruptions: measure ..
    pairwise = s.lmo_variant == "pairwise"
    eig = np.linalg.eigvalsh(s.A.T.dot(s.A) / s.n)
    mu = s.alpha + (eig[0] if s.lossk == "square" else 0.0)
    good = s.p <= 4 and mu > 0 and s.L / mu < 50
    tol = src.choice([0.0, 1e-9, 1e-3])
    iters = 1500 if (pairwise and good) else src.int(5, 120)
    lipschitz = "auto"
    if s.rule == "backtracking" and src.chance(50):
        lipschitz = s.L * src.choice([1.0, 0.1, 3.0])
    life = fw.simulate(run, s, x, rep, iters, tol, None, None, None, lipschitz)
    if life.error is not None:
        raise Violation("unexpected-exception", "%s: %s" % (type(life.error).__name__, life.error))
    xr = np.asarray(life.res.x, dtype=float)
    k = len(life.lmos)
    u, lx, act, d, v, away, mx = life.lmos[-1]
    cert = float(life.res.certificate)
    rough = 1e-7 * (1 + np.abs(u).sum()) * (1 + s.radius)
    # .. the certificate is the gap where the oracle was last asked ..
    true_gap = best = fw.gap(s, lx)
    if pairwise:
        worst = min(float(sg) * u[int(ix)] * s.radius for sg, ix in act)
        best = fw.best_vertex_value(s, u) - worst
    if abs(cert - best) > rough:
        raise Violation("certificate", "certificate %.9g, gap at the last point asked %.9g" % (cert, best))
    if k < iters:
        if cert > tol:
            raise Violation("stopped-early", "stopped after %d of %d iterations with certificate %g > tol %g" % (k, iters, cert, tol))
        if fw.gap(s, xr) > max(tol, 0) + rough:
            raise Violation("stopped-early", "stopped after %d of %d iterations with a gap of %g (tol %g)" % (k, iters, fw.gap(s, xr), tol))
        run.probe("converged")
        return
    fstar = fw.near_optimum(s)
    h = s.ref.value(xr) - fstar
    eps = 1e-9 * (1 + abs(fstar))
    if not pairwise:
        C = s.L * s.diam ** 2
        bound = {"DR": 1.0, "sublinear": 1.0, "backtracking": 4.0}[s.rule] * 2 * C / (k + 2) + eps
        if s.rule == "backtracking":
            bound += 2.5e-7 * k
        run.probe("bound-checked")
        run.counts["ratio%d" % min(10, int(10 * max(h, 0) / bound))] += 1
        if not h <= bound:
            raise Violation("bound", "%s after %d iterations: objective %.6g above the optimum, bound %.6g" % (s.rule, k, h, bound))
    else:
        drops = sum(1 for a, b in zip(life.lmos, life.lmos[1:]) if a[2] is not None and a[5] is not None and a[5] not in b[2])
        run.probe("drop-steps", drops)
        if drops:
            run.nontrivial = True
        if good:
            target = 1e-5 * (1 + s.L * s.diam ** 2)
            run.probe("pairwise-target-checked")
            if s.rule == "backtracking":
                # its decrease test tolerates float32-eps per step, so the gap itself keeps oscillating
                target = 2e-6 * (1 + abs(fstar))
                if not h <= target:
                    raise Violation("stall", "pairwise backtracking: objective %.3g above the optimum after %d iterations (target %.3g)" % (h, iters, target))
            elif not fw.gap(s, xr) <= target:
                raise Violation("stall", "pairwise %s: gap %.3g after %d iterations (target %.3g)" % (s.rule, fw.gap(s, xr), k, target))
