"""C07: stochastic Frank-Wolfe against an independent model of its gradient estimates."""
import numpy as np

from dst import problems as pb
from dst import sfw
from dst.core import Violation

RUNS = {"quick": 24000, "thorough": 400000}
RULE = ("a run draws data, constraint set, variant, batch size, step rule, a sampling policy for the batches and possibly kills of the caller "
        "in user code followed by restarts; non-trivial: the batch sequence is not the identity or a fault fired")
REAL = ["copt.randomized.minimize_sfw", "copt.utils.sample_batches/fast_csr_*", "copt.constraint linear oracles", "copt.loss partial_deriv"]
STUB = ["np.random.randint/choice (seeded scheduler)", "user callback, step rule, derivative and oracle wrappers"]
ASSUMPTIONS = ["pure-Python fallback of njit (numba is not installed)", "values compared to 1e-8 relative"]
LEVEL_NOTE = ("seeded search: every derivative and oracle call of real minimize_sfw checked against a dense model of the four variants under simulated batch "
              "sequences; trusts the model and the pure-Python njit fallback; no completeness claim")
setup = sfw.setup


def run(run):
    s = sfw.generate(run)
    for x0, life in sfw.lives(run, s):
        check(run, s, x0, life)


def check(run, s, x0, life):
    n = s.n
    if life.error is not None and not (isinstance(life.error, ValueError) and sfw.too_large(s, life)):
        raise Violation("unexpected-exception", "%s: %s" % (type(life.error).__name__, life.error))
    if not life.marks:
        return
    if not np.array_equal(life.marks[0][0], x0):
        raise Violation("start", "first reported iterate is not the starting point")
    per_epoch = n if s.batch == 1 else n // s.batch
    if life.res is not None:
        if len(life.marks) != 1 + s.epochs * per_epoch:
            raise Violation("steps", "%d steps in %d epochs of %d batches" % (len(life.marks) - 1, s.epochs, per_epoch))
        if not np.array_equal(life.res.x, life.marks[-1][0]):
            raise Violation("result", "returned x differs from the last iterate")
    dual = np.zeros(n)
    agg = s.A.dot(x0)
    x = x0.copy()
    Asum = np.abs(s.A).sum()
    todo = list(enumerate(life.steps[1:]))
    if any(life.cur.values()):
        todo.append((len(life.steps) - 1, life.cur))
    for t, st in todo:
        complete = t + 1 < len(life.marks)
        if len(st["lmo"]) > 1 or (complete and (len(st["lmo"]) != 1 or not st["deriv"])):
            raise Violation("calls", "step %d: %d oracle and %d derivative calls" % (t, len(st["lmo"]), len(st["deriv"])))
        if s.rule == "callable":
            if complete and len(st["user"]) != 1:
                raise Violation("calls", "step %d: user step called %d times" % (t, len(st["user"])))
            if not st["user"]:
                return
            sx, sa = st["user"][-1]
        else:
            sx, sa = sfw.sublinear(s, t)
            if s.rule == "DR":
                sx = None
        batch = [i for i, _ in st["deriv"]]
        if batch:
            if len(set(batch)) != len(batch):
                raise Violation("batch", "step %d: batch %s repeats samples" % (t, batch))
            if complete and len(batch) != s.batch:
                raise Violation("batch", "step %d: batch %s, requested size %d" % (t, batch, s.batch))
        scale = 1.0 + np.abs(x).max() + s.radius

        def need_lmo(est):
            u, lx, _, d, _, _, mx = st["lmo"][0]
            if not np.array_equal(lx, x):
                raise Violation("oracle-point", "step %d: oracle asked at %s, iterate is %s" % (t, lx, x))
            if not pb.close(u, -est, Asum + np.abs(est).max()):
                raise Violation("estimate", "step %d (%s, batch %s): oracle asked for direction %s, estimate gives %s" % (t, s.variant, batch, u, -est))
            return d, mx

        if s.variant == "LF":
            if not st["lmo"]:
                return
            d, mx = need_lmo(s.A.T.dot(dual))
            if not st["deriv"]:
                return
            z = s.A.dot(x + d)
            for i in batch:
                agg[i] += sa * (z[i] - agg[i])
            at = agg
        else:
            if not st["deriv"]:
                return
            at = s.A.dot(x)
        for i, pv in st["deriv"]:
            if not pb.close(pv, at[i], scale * (1 + Asum)):
                raise Violation("derivative-point", "step %d sample %d: derivative at %.12g, should be %.12g" % (t, i, pv, at[i]))
        g = s.ref.deriv(at[batch], s.b[batch]) / n
        old = dual[batch].copy()
        if s.variant == "MHK":
            dual[batch] = old + sa * (g - old)
        else:
            dual[batch] = g
        full = s.A.T.dot(dual)
        if s.variant != "LF":
            if not st["lmo"]:
                return
            est = full
            if s.variant == "SAGA":
                est = full + (n / len(batch) - 1) * s.A[batch].T.dot(dual[batch] - old)
            d, mx = need_lmo(est)
        if not complete:
            return
        if s.rule == "DR":
            cert = -float(full.dot(d))
            nd = float(d.dot(d))
            lim = 1e-9 * (1 + Asum) * (1 + np.abs(d).sum())
            if cert <= lim:
                # at rounding level the sign of the certificate is not determined
                lo = 0.0
                hi = min(max(cert + lim, 0.0) / (nd * s.lipschitz), mx) if nd > 0 else 0.0
            else:
                lo = hi = min(cert / (nd * s.lipschitz), mx)
        else:
            lo = hi = sx
        new = life.marks[t + 1][0]
        tol = 1e-8 * scale * (1 + np.abs(d).max())
        if lo == hi:
            good = bool(np.all(np.abs(new - (x + lo * d)) <= tol))
        else:
            nd = float(d.dot(d))
            gam = float((new - x).dot(d)) / nd if nd > 0 else 0.0
            good = lo - 1e-8 <= gam <= hi + 1e-8 and bool(np.all(np.abs(new - (x + gam * d)) <= tol))
        if not good:
            raise Violation("move", "step %d (%s %s): x moved by %s, oracle direction %s times step %s" % (t, s.variant, s.rule, new - x, d, lo))
        x = new
