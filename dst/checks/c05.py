"""C05: SAGA and SVRG against an independent dense reference recursion, for every visiting order."""
import numpy as np
from scipy import sparse

from dst import problems as pb
from dst import seams
from dst.core import GUARD, InjectedFault, Violation, hx

RUNS = {"quick": 36000, "thorough": 600000}
RULE = ("a run draws data, sparsity, penalty, solver, step, a visiting policy for the samples and possibly a kill of the "
        "run at a random derivative call followed by a restart; non-trivial: the visiting order is not the identity or a fault fired")
REAL = ["copt.randomized.minimize_saga", "copt.randomized.minimize_svrg", "copt.penalty prox factories", "copt.loss partial_deriv"]
STUB = ["np.random.shuffle/permutation (seeded scheduler)", "user callback and derivative wrapper"]
LEVEL_NOTE = ("seeded search over sample schedules, step sizes, block penalties and restarts of the real stochastic solvers, every trial compared with an independent dense reference of one update; no completeness claim")
ASSUMPTIONS = ["pure-Python fallback of njit (numba is not installed)", "iterates compared to 1e-8 relative",
               "the reference recursion is the sparse proximal SAGA/SVRG of Pedregosa et al. 2017"]


def setup():
    import copt.penalty  # noqa

    seams.install()
    GUARD.install()


class Ref:
    """Dense reference of one pass."""

    def __init__(self, Acsr, ref, pen, step, alpha):
        self.A = Acsr.toarray()
        self.n, self.p = self.A.shape
        self.ref, self.pen, self.step, self.alpha = ref, pen, step, alpha
        supp = [set(Acsr.indices[Acsr.indptr[i]:Acsr.indptr[i + 1]].tolist()) for i in range(self.n)]
        self.ext = [[h for h, bl in enumerate(pen.blocks) if any(int(j) in supp[i] for j in bl)] for i in range(self.n)]
        cnt = np.zeros(len(pen.blocks))
        for i in range(self.n):
            for h in self.ext[i]:
                cnt[h] += 1
        self.d = np.array([self.n / c if c else 1.0 for c in cnt])

    def step_on(self, x, i, delta, avg):
        """x after a step with gradient difference delta (scalar) of sample i and average gradient avg."""
        x = x.copy()
        for h in self.ext[i]:
            bl = self.pen.blocks[h]
            v = x[bl] - self.step * (delta * self.A[i, bl] + self.d[h] * (avg[bl] + self.alpha * x[bl]))
            x[bl] = self.pen.prox_block(v, self.step * self.d[h], h)
        return x


def run(run):
    src = run.src
    import copt

    solver = src.choice(["saga", "svrg"])
    n, p = pb.gen_dims(src, 9, 7)
    A = pb.gen_A(src, n, p)
    fmt = src.choice(pb.FORMATS)
    lossk = src.weighted([("log", 2), ("square", 2), ("dead", 2)])
    b = pb.gen_labels(src, n, unit=lossk == "log")
    alpha = src.choice([0.0, 0.1, 1.0])
    kind, pen = pb.gen_block_penalty(src, p, ["none", "l1", "group", "fl1", "fl2"])
    Acsr = sparse.csr_matrix(A)
    ref = pb.RefLoss(lossk, A, b, alpha)
    model = Ref(Acsr, ref, pen, 0.0, alpha)
    L = ref.Lmax + alpha * float(model.d.max()) + 1e-3
    model.step = step = src.choice([1.0 / 3, 0.1, 0.6]) / L
    passes = src.int(1, 5)
    x0 = pb.bulk(src.rand(), p) if src.chance(60) else np.zeros(p)
    policy = src.choice(seams.Sampler.KINDS)
    nlives = 1 + src.weighted([(0, 6), (1, 3), (2, 1)])
    run.cfg = dict(solver=solver, n=n, p=p, fmt=fmt, loss=lossk, alpha=alpha, pen=kind, blocks=[list(map(int, bl)) for bl in pen.blocks],
                   step=step, passes=passes, policy=policy, lives=nlives)
    run.nontrivial = policy != "identity"
    np.random.seed(12345)
    deriv = pb.make_deriv(lossk, pb.as_format(A, "csr"), b)
    index_of = {float(v): i for i, v in enumerate(b)}
    x = x0
    for life in range(nlives):
        kill_at = None
        if life < nlives - 1:
            kill_at = src.draw(passes * n * (2 if solver == "saga" else 3) + 1)
        sampler = seams.Sampler(policy, src.seed(), log=run.log)
        seams.set_sampler(sampler)
        seen = []  # derivative evaluations: (sample, p)
        marks = []  # callbacks: (number of evaluations so far, x)
        last = [x.copy()]

        def f_deriv(pv, yv):
            GUARD.reset()
            if kill_at is not None and len(seen) >= kill_at:
                run.fault("kill-in-derivative", kill_at)
                raise InjectedFault("kill")
            pa, ya = np.asarray(pv, dtype=float), np.asarray(yv, dtype=float)
            if pa.shape != ya.shape or pa.ndim != 1:
                raise Violation("derivative-args", "derivative evaluated on shapes %s %s" % (pa.shape, ya.shape))
            for u, v in zip(pa, ya):
                if float(v) not in index_of:
                    raise Violation("derivative-args", "derivative evaluated at a label that is not in the data: %r" % v)
                seen.append((index_of[float(v)], float(u)))
            return deriv(pv, yv)

        def cb(dl):
            GUARD.reset()
            marks.append((len(seen), np.array(dl["x"], dtype=float, copy=True)))
            last[0] = marks[-1][1]
            run.log("pass", len(marks), hx(marks[-1][1]))

        killed = False
        GUARD.start()
        try:
            res = getattr(copt, "minimize_" + solver)(
                f_deriv, pb.as_format(A, fmt), b.copy(), x.copy(), step, prox=pen.factory(), alpha=alpha, max_iter=passes, tol=0, callback=cb)
        except InjectedFault:
            killed = True
        except Violation:
            raise
        except Exception as e:
            raise Violation("unexpected-exception", "%s raised %s: %s" % (solver, type(e).__name__, e))
        finally:
            GUARD.stop()
            seams.set_sampler(None)
        xs = [m[1] for m in marks]
        if not killed:
            if len(marks) != passes + 1:
                # an early stop is only legitimate when the last pass did not move x (tol = 0: never '<')
                raise Violation("passes", "%d callbacks for %d passes" % (len(marks), passes))
            if not np.array_equal(res.x, xs[-1]):
                raise Violation("result", "returned x differs from the last iterate")
        check_life(run, solver, model, ref, b, x, seen, marks, sampler, killed)
        run.probe("lives")
        run.probe("killed", int(killed))
        x = last[0]
    run.simtime += 0.0


def check_life(run, solver, model, ref, b, x0, seen, marks, sampler, killed):
    n = model.n
    if marks and not np.array_equal(marks[0][1], x0):
        raise Violation("start", "first reported iterate is not the starting point")
    scale = max([1.0] + [float(np.abs(m[1]).max()) for m in marks])
    if not np.isfinite(scale) or scale > 1e7:
        run.probe("diverged")
        return
    tol = 1e-8
    x = x0.copy()
    mem = np.zeros(n)
    avg = np.zeros(model.p)
    if solver == "saga":
        for k in range(len(marks)):
            a = marks[k][0]
            z = marks[k + 1][0] if k + 1 < len(marks) else len(seen)
            part = seen[a:z]
            complete = k + 1 < len(marks)
            idx = [i for i, _ in part]
            if len(set(idx)) != len(idx) or (complete and len(idx) != n):
                raise Violation("visits", "pass %d visited samples %s" % (k, idx))
            for i, pv in part:
                want = float(model.A[i].dot(x))
                if not pb.close(pv, want, scale * (1 + np.abs(model.A[i]).sum()), tol):
                    raise Violation("inner-product", "pass %d sample %d: derivative at %.12g, iterate gives %.12g" % (k, i, pv, want))
                g = float(ref.deriv(np.array([want]), np.array([b[i]]))[0])
                x = model.step_on(x, i, g - mem[i], avg)
                avg = avg + (g - mem[i]) * model.A[i] / n
                mem[i] = g
            if complete and not pb.close(marks[k + 1][1], x, scale, tol):
                raise Violation("iterate", "saga pass %d: x=%s, reference %s" % (k, marks[k + 1][1], x))
    else:
        orders = [v for w, v in sampler.draws if w == "order"]
        for k in range(len(marks)):
            complete = k + 1 < len(marks)
            if not complete and killed and len(orders) <= k:
                break
            if not complete:
                break
            if k >= len(orders):
                raise Violation("visits", "pass %d made without drawing an order" % k)
            order = orders[k]
            part = seen[marks[k][0]:marks[k + 1][0]]
            snap = x.copy()
            full = model.A.T.dot(ref.deriv(model.A.dot(snap), b)) / n
            at = {}
            for i in order:
                at[i] = float(model.A[i].dot(x))
                old = float(model.A[i].dot(snap))
                delta = float(ref.deriv(np.array([at[i]]), np.array([b[i]]))[0] - ref.deriv(np.array([old]), np.array([b[i]]))[0])
                x = model.step_on(x, i, delta, full)
            for i, pv in part:
                sc = scale * (1 + np.abs(model.A[i]).sum())
                if not (pb.close(pv, at[i], sc, tol) or pb.close(pv, float(model.A[i].dot(snap)), sc, tol)):
                    raise Violation("inner-product", "svrg pass %d sample %d: derivative at %.12g, iterate gives %.12g or %.12g" % (
                        k, i, pv, at[i], float(model.A[i].dot(snap))))
            if not pb.close(marks[k + 1][1], x, scale, tol):
                raise Violation("iterate", "svrg pass %d: x=%s, reference %s" % (k, marks[k + 1][1], x))
