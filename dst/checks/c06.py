"""C06: VRTOS against an independent dense reference recursion, for every visiting order."""
import numpy as np
from scipy import sparse

from dst import problems as pb
from dst import seams
from dst.core import GUARD, InjectedFault, Violation, hx

RUNS = {"quick": 24000, "thorough": 400000}
RULE = ("a run draws data, sparsity, two penalties, step, a visiting policy for the samples and possibly kills of the run at a "
        "random derivative call followed by a restart; non-trivial: the visiting order is not the identity or a fault fired")
REAL = ["copt.randomized.minimize_vrtos", "copt.penalty prox factories", "copt.loss partial_deriv"]
STUB = ["np.random.permutation/shuffle (seeded scheduler)", "user callback and derivative wrapper"]
ASSUMPTIONS = ["pure-Python fallback of njit (numba is not installed)", "iterates compared to 1e-8 relative",
               "the one derivative evaluation before the first callback (JIT warm-up) is part of the recursion",
               "the reference is the sparse variance-reduced three-operator splitting of Pedregosa et al. 2018"]
LEVEL_NOTE = ("seeded search: real minimize_vrtos stepped against a dense reference model under simulated visiting orders, kills and restarts; "
              "trusts the reference model and the pure-Python njit fallback; no completeness claim")


def setup():
    import copt.penalty  # noqa

    seams.install()
    GUARD.install()


def ext_supports(Acsr, blocks):
    n = Acsr.shape[0]
    supp = [set(Acsr.indices[Acsr.indptr[i]:Acsr.indptr[i + 1]].tolist()) for i in range(n)]
    ext = [[h for h, bl in enumerate(blocks) if any(int(j) in supp[i] for j in bl)] for i in range(n)]
    cnt = np.zeros(len(blocks))
    for e in ext:
        for h in e:
            cnt[h] += 1
    return ext, np.array([n / c if c else 1.0 for c in cnt])


class Model:
    def __init__(self, Acsr, ref, b, pens, step, alpha, x0):
        self.A = Acsr.toarray()
        self.n, self.p = self.A.shape
        self.ref, self.b, self.pens, self.step, self.alpha = ref, b, pens, step, alpha
        self.ext, self.d, self.owner = [], [], []
        for pen in pens:
            e, d = ext_supports(Acsr, pen.blocks)
            self.ext.append(e)
            self.d.append(d)
            own = np.zeros(self.p, dtype=int)
            for h, bl in enumerate(pen.blocks):
                own[bl] = h
            self.owner.append(own)
        self.Y = np.zeros((2, self.p))
        self.z = x0.astype(float).copy()
        self.mem = np.zeros(self.n)
        self.avg = np.zeros(self.p)

    def visit(self, i):
        g = float(self.ref.deriv(np.array([self.A[i].dot(self.z)]), np.array([self.b[i]]))[0])
        delta = g - self.mem[i]
        z = self.z
        touched = set()
        for k in (0, 1):
            for h in self.ext[k][i]:
                bl = self.pens[k].blocks[h]
                dd = self.d[k][h]
                v = 2 * z[bl] - self.Y[k, bl] - 0.5 * self.step * (delta * self.A[i, bl] + dd * (self.avg[bl] + self.alpha * z[bl]))
                xk = self.pens[k].prox_block(v, self.step * dd, h)
                self.Y[k, bl] = self.Y[k, bl] + xk - z[bl]
                touched.update(int(j) for j in bl)
        z = z.copy()
        for j in touched:
            wa = 1.0 / self.d[0][self.owner[0][j]]
            wb = 1.0 / self.d[1][self.owner[1][j]]
            z[j] = (wa * self.Y[0, j] + wb * self.Y[1, j]) / (wa + wb)
        self.z = z
        self.avg = self.avg + delta * self.A[i] / self.n
        self.mem[i] = g


def run(run):
    src = run.src
    import copt

    n, p = pb.gen_dims(src, 8, 7)
    A = pb.gen_A(src, n, p)
    fmt = src.choice(pb.FORMATS)
    lossk = src.weighted([("log", 2), ("square", 2), ("dead", 2)])
    b = pb.gen_labels(src, n, unit=lossk == "log")
    alpha = src.choice([0.0, 0.1, 1.0])
    k1, pen1 = pb.gen_block_penalty(src, p, ["none", "l1", "group", "fl1", "fl2"])
    k2, pen2 = pb.gen_block_penalty(src, p, ["none", "l1", "group", "fl1", "fl2"])
    Acsr = sparse.csr_matrix(A)
    ref = pb.RefLoss(lossk, A, b, alpha)
    d = max(ext_supports(Acsr, q.blocks)[1].max() for q in (pen1, pen2))
    L = ref.Lmax + alpha * float(d) + 1e-3
    step = src.choice([1.0 / 3, 0.1, 1.0]) / L
    passes = src.int(1, 4)
    x0 = pb.bulk(src.rand(), p) if src.chance(60) else np.zeros(p)
    policy = src.choice(seams.Sampler.KINDS)
    nlives = 1 + src.weighted([(0, 6), (1, 3), (2, 1)])
    run.cfg = dict(n=n, p=p, fmt=fmt, loss=lossk, alpha=alpha, pens=(k1, k2), step=step, passes=passes, policy=policy, lives=nlives)
    run.nontrivial = policy != "identity"
    run.sched(policy, nlives)
    np.random.seed(12345)
    deriv = pb.make_deriv(lossk, pb.as_format(A, "csr"), b)
    index_of = {float(v): i for i, v in enumerate(b)}
    x = x0
    for life in range(nlives):
        kill_at = src.draw(passes * n + 2) if life < nlives - 1 else None
        sampler = seams.Sampler(policy, src.seed(), log=run.log)
        seams.set_sampler(sampler)
        seen, marks = [], []
        last = [x.copy()]

        def f_deriv(pv, yv):
            GUARD.reset()
            if kill_at is not None and len(seen) >= kill_at:
                run.fault("kill-in-derivative", kill_at)
                raise InjectedFault("kill")
            pa, ya = np.asarray(pv, dtype=float), np.asarray(yv, dtype=float)
            if pa.shape != ya.shape or pa.ndim != 1:
                raise Violation("derivative-args", "derivative evaluated on shapes %s %s" % (pa.shape, ya.shape))
            for u, v in zip(pa, ya):
                if float(v) not in index_of:
                    raise Violation("derivative-args", "derivative evaluated at a label that is not in the data: %r" % v)
                seen.append((index_of[float(v)], float(u)))
                run.sched(index_of[float(v)])
            return deriv(pv, yv)

        def cb(dl):
            GUARD.reset()
            xk = dl["x"] if "x" in dl else dl["z"]
            marks.append((len(seen), np.array(xk, dtype=float, copy=True)))
            last[0] = marks[-1][1]
            run.log("pass", len(marks), hx(marks[-1][1]))

        killed = False
        GUARD.start()
        try:
            res = copt.minimize_vrtos(f_deriv, pb.as_format(A, fmt), b.copy(), x.copy(), step, prox_1=pen1.factory(), prox_2=pen2.factory(),
                                      alpha=alpha, max_iter=passes, tol=0, callback=cb)
        except InjectedFault:
            killed = True
        except Violation:
            raise
        except Exception as e:
            raise Violation("unexpected-exception", "vrtos raised %s: %s" % (type(e).__name__, e))
        finally:
            GUARD.stop()
            seams.set_sampler(None)
        if not killed:
            if len(marks) != passes + 1:
                raise Violation("passes", "%d callbacks for %d passes" % (len(marks), passes))
            if not np.array_equal(res.x, marks[-1][1]):
                raise Violation("result", "returned x differs from the last iterate")
        m = Model(Acsr, ref, b, (pen1, pen2), step, alpha, x)
        scale = max([1.0] + [float(np.abs(q[1]).max()) for q in marks])
        if np.isfinite(scale) and scale < 1e7:
            pos = 0
            for k in range(len(marks) + 1):
                end = marks[k][0] if k < len(marks) else len(seen)
                part = seen[pos:end]
                if k > 0:
                    idx = [i for i, _ in part]
                    if len(set(idx)) != len(idx) or (k < len(marks) and len(idx) != n):
                        raise Violation("visits", "pass %d visited samples %s" % (k, idx))
                for i, pv in part:
                    want = float(m.A[i].dot(m.z))
                    if not pb.close(pv, want, scale * (1 + np.abs(m.A[i]).sum())):
                        raise Violation("inner-product", "pass %d sample %d: derivative at %.12g, iterate gives %.12g" % (k, i, pv, want))
                    m.visit(i)
                if k < len(marks) and not pb.close(marks[k][1], m.z, scale):
                    raise Violation("iterate", "pass %d: x=%s, reference %s" % (k, marks[k][1], m.z))
                pos = end
        else:
            run.probe("diverged")
        run.probe("lives")
        run.probe("killed", int(killed))
        x = last[0]
