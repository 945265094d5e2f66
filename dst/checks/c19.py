"""C19: the loops marked as parallel, under simulated workers."""
import inspect

import numpy as np
from scipy import sparse

from dst import par, problems as pb, seams
from dst.core import GUARD, Violation, hx

RUNS = {"quick": 80000, "thorough": 400000}
RULE = ("a run draws one of the routines (derivatives of the losses, mini-batch sampling, row-subset products, or a whole SAGA/SVRG/SFW solve on top of them), its input, a number of workers, a dealing of the "
        "iterations and a scheduling policy; non-trivial: at least two workers were interleaved")
REAL = ["copt.loss.*.partial_deriv", "copt.utils.sample_batches, fast_csr_mv, fast_csr_vm", "minimize_saga, minimize_svrg, minimize_sfw"]
STUB = ["the parallel runtime of the JIT (simulated workers over the library's own loop bodies)", "NumPy's global generator (sampling policies)"]
ASSUMPTIONS = ["sequential consistency between statements; one array store is atomic", "names assigned in the body are private to the iteration; `name += value` on an outer name is a reduction"]
LEVEL_NOTE = ("seeded search over worker assignments and statement interleavings of the real loop bodies; no completeness claim")


def setup():
    par.install()
    seams.install()
    import copt  # noqa
    import copt.penalty  # noqa

    GUARD.install()


def schedule(src):
    W = src.choice([2, 1, 3, 4, 5])
    s = par.Schedule(W, src.choice(["chunks", "cyclic", "reversed", "random"]), src.choice(["robin", "last", "sticky", "random"]), src.seed())
    return s


def under(run, s, fn, *a, **k):
    par.SCHED[0] = s
    GUARD.start()
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation("unexpected-exception", "%s: %s" % (type(e).__name__, e))
    finally:
        GUARD.stop()
        par.SCHED[0] = None
        if s is not None:
            n = len(set(s.trace))
            run.probe("workers-%d" % n)
            run.sched("trace", tuple(s.trace))
            run.counts["context-switches"] += sum(1 for x, y in zip(s.trace, s.trace[1:]) if x != y)
            if n > 1:
                run.nontrivial = True


def numbers(src, n):
    r = src.rand()
    kind = src.choice(["normal", "wide", "mixed"])
    out = []
    for _ in range(n):
        if kind == "normal":
            out.append(r.gauss(0, 2))
        elif kind == "wide":
            out.append(r.gauss(0, 1) * 10 ** r.uniform(-3, 2.7))
        else:
            out.append(r.choice([0.0, -0.0, 1.0, -1.0, 700.0, -700.0, 1e-300, r.gauss(0, 1)]))
    return np.array(out, dtype=float)


def run(run):
    import copt
    import copt.loss
    import copt.utils

    src = run.src
    what = src.weighted([("log", 4), ("batches", 4), ("square", 1), ("huber", 1), ("csr", 2), ("solve", 1)])
    s = schedule(src)
    run.cfg = dict(what=what, workers=s.workers, deal=s.deal, policy=s.policy)
    run.sched(what, s.workers, s.deal, s.policy)
    if what in ("log", "square", "huber"):
        n = src.choice([1, 2, 0, src.int(3, 12), src.int(13, 60)])
        p = numbers(src, n)
        r = src.rand()
        y = np.array([r.random() if r.random() < 0.3 else float(r.randrange(2)) for _ in range(n)])
        A = np.ones((max(n, 1), 1))
        loss = pb.make_loss(what, A, np.resize(y, max(n, 1)) if n else np.zeros(1), 0.0)
        try:
            f = loss.partial_deriv
        except (AttributeError, NotImplementedError):
            run.probe("no-derivative-" + what)
            return
        if f is None:
            return
        p0, y0 = p.copy(), y.copy()
        base = np.array(under(run, None, f, p, y))
        got = np.array(under(run, s, f, p, y))
        run.log(what, n, hx(got))
        if what == "log":
            with np.errstate(all="ignore"):
                ref = np.where(p < 0, np.exp(p) / (1 + np.exp(p)), 1 / (1 + np.exp(-p))) - y
        elif what == "square":
            ref = p - y
        else:
            d = p - y
            ref = np.where(np.abs(d) <= 1.0, d, np.sign(d))
        if got.shape != ref.shape or not np.all(np.abs(got - ref) <= 1e-9 * (1 + np.abs(ref))):
            k = int(np.argmax(np.abs(got - ref))) if got.shape == ref.shape else -1
            raise Violation("wrong-derivative", "%s: entry %d of %d is %s, expected %s (%d workers)" % (what, k, n, got[k] if k >= 0 else got.shape, ref[k] if k >= 0 else ref.shape, s.workers))
        if not np.array_equal(base, got):
            raise Violation("order-dependent", "%s: result differs from the sequential one" % what)
        if not (np.array_equal(p, p0) and np.array_equal(y, y0)):
            raise Violation("modified", "%s: the arguments were modified" % what)
        return
    if what == "batches":
        n = src.int(1, 12)
        nb = src.choice([1, 2, 0, src.int(3, 10)])
        bs = src.int(1, n)
        sampler = seams.Sampler(src.choice(["uniform", "identity", "rotate"]), src.seed())
        seams.set_sampler(sampler)
        try:
            idx = np.asarray(under(run, s, copt.utils.sample_batches, n, nb, bs))
        finally:
            seams.set_sampler(None)
        run.log(what, n, nb, bs, hx(idx))
        if idx.shape != (nb * bs,) or idx.dtype.kind not in "iu":
            raise Violation("bad-batches", "shape %s, dtype %s for %d batches of %d" % (idx.shape, idx.dtype, nb, bs))
        for k in range(nb):
            b = idx[k * bs:(k + 1) * bs]
            if len(set(b.tolist())) != bs or b.min() < 0 or b.max() >= n:
                raise Violation("bad-batches", "batch %d is %s: not %d distinct samples of %d (%d workers)" % (k, b.tolist(), bs, n, s.workers))
        return
    if what == "csr":
        n, p = src.int(1, 8), src.int(1, 6)
        A = pb.gen_A(src, n, p)
        M = sparse.csr_matrix(A)
        m = src.choice([1, src.int(1, 12), 0])
        idx = np.array([src.draw(n) for _ in range(m)], dtype=int)
        x, v = pb.bulk(src.rand(), p), pb.bulk(src.rand(), m)
        x, v = np.asarray(x, dtype=float), np.asarray(v, dtype=float)
        mv = under(run, s, copt.utils.fast_csr_mv, M.data, M.indptr, M.indices, x, idx)
        vm = under(run, s, copt.utils.fast_csr_vm, v, M.data, M.indptr, M.indices, p, idx)
        run.log(what, hx(mv), hx(vm))
        for nm, got, ref in (("fast_csr_mv", mv, A[idx].dot(x)), ("fast_csr_vm", vm, A[idx].T.dot(v))):
            got = np.asarray(got)
            if got.shape != ref.shape or not np.all(np.abs(got - ref) <= 1e-10 * (1 + np.abs(ref))):
                raise Violation("wrong-product", "%s(idx=%s): %s, expected %s" % (nm, idx.tolist(), got, ref))
        return
    # .. a whole solve: the result must not depend on the schedule ..
    from dst import world

    w = world.World(run, ["saga", "svrg", "sfw"], small=True, cons=("l1", "simplex"))
    w.lossk = "log"
    w.b = pb.gen_labels(src, w.n, unit=True)
    w.ref = pb.RefLoss("log", w.A, w.b, w.alpha)
    kind, seed = src.choice(["uniform", "rotate"]), src.seed()
    out = []
    for sch in (None, s):
        # .. batches of a solve are drawn in the order of the schedule: one repeated batch makes the solves comparable ..
        seams.set_sampler(seams.Sampler("constant" if w.solver == "sfw" else kind, seed))
        try:
            res = under(run, sch, w.solve, w.fresh(), max_iter=3, tol=0.0)
        finally:
            seams.set_sampler(None)
        out.append(world.result_state(res))
    run.log("solve", w.solver, hx(res.x))
    if out[0] != out[1]:
        raise Violation("order-dependent", "%s: the result depends on the schedule of the parallel loops" % w.solver)
