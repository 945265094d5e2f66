"""Generated problems (data, losses, penalties) and the simulated user: oracles that log, count and fail on plan."""
import numpy as np
from scipy import sparse

from dst import core
from dst.core import GUARD, Violation, hx


def bulk(rnd, *shape):
    """Normal-ish numbers with few digits from a private PRNG."""
    n = int(np.prod(shape))
    return np.array([round(rnd.gauss(0, 1), 3) for _ in range(n)]).reshape(shape)


def gen_dims(src, n, p):
    """Up to n samples and p features, now and then up to three times as many."""
    k = 3 if src.chance(6) else 1
    return src.int(1, k * n), src.int(1, k * p)


def gen_A(src, n, p, full_rank=False, empties=True):
    """Data matrix as a dense array plus the container format to hand to the library."""
    r = src.rand()
    A = bulk(r, n, p)
    dens = src.choice([100, 60, 35, 20])
    if dens < 100:
        mask = np.array([r.random() * 100 < dens for _ in range(n * p)]).reshape(n, p)
        A = A * mask
    if empties and src.chance(25):
        A[:, src.draw(p)] = 0.0
    if empties and src.chance(15):
        A[src.draw(n), :] = 0.0
    if src.chance(15):
        A = np.abs(A)
    if src.chance(15):
        A = A * src.choice([0.1, 5.0])
    if src.chance(12):
        # .. equal or opposite columns, equal rows: exact ties in the gradient ..
        for _ in range(src.int(1, 3)):
            A[:, src.draw(p)] = src.choice([1.0, -1.0]) * A[:, src.draw(p)]
        if src.chance(30):
            A[src.draw(n)] = A[src.draw(n)]
    if full_rank:
        for j in range(p):
            A[j % n, j] += 1.0
    return A


FORMATS = ["dense", "csr", "csc", "coo"]


def as_format(A, fmt):
    """`A` in a container; csru: indices not sorted; csr0: explicitly stored zeros."""
    if fmt == "dense":
        return A.copy()
    if fmt == "csru":
        M = sparse.csr_matrix(A)
        for i in range(M.shape[0]):
            a, b = M.indptr[i], M.indptr[i + 1]
            M.indices[a:b], M.data[a:b] = M.indices[a:b][::-1].copy(), M.data[a:b][::-1].copy()
        M.has_sorted_indices = False
        return M
    if fmt == "csr0":
        n, p = A.shape
        keep = (A != 0) | ((np.arange(n)[:, None] + 2 * np.arange(p)) % 3 == 0)
        rows, cols = np.nonzero(keep)
        return sparse.csr_matrix((A[rows, cols].astype(float), cols, np.concatenate(([0], np.cumsum(keep.sum(1))))), shape=A.shape)
    return sparse.csr_matrix(A).asformat(fmt)


def gen_labels(src, n, unit=True):
    """Distinct labels, so that a label identifies its sample at the derivative oracle."""
    r = src.rand()
    base = [(k + 0.5 + 0.8 * (r.random() - 0.5)) / n for k in range(n)]
    r.shuffle(base)
    b = np.array(base)
    if not unit:
        b = 4.0 * b - 2.0
    return b


def sigmoid(t):
    t = np.asarray(t, dtype=float)
    out = np.empty_like(t)
    pos = t >= 0
    out[pos] = 1.0 / (1.0 + np.exp(-t[pos]))
    e = np.exp(t[~pos])
    out[~pos] = e / (1.0 + e)
    return out


def logcosh_stable_softplus(t):
    t = np.asarray(t, dtype=float)
    return np.maximum(t, 0) + np.log1p(np.exp(-np.abs(t)))


DEAD = 0.8


class RefLoss:
    """Independent reference for the smooth part: mean loss + alpha/2 ||x||^2."""

    def __init__(self, kind, A, b, alpha, delta=1.0):
        self.kind, self.A, self.b, self.alpha, self.delta = kind, np.array(A, dtype=float), b.copy(), alpha, delta
        self.n = self.A.shape[0]
        s = np.linalg.norm(self.A, 2) ** 2 / self.n
        self.L = (0.25 * s if kind == "log" else s) + alpha
        rows = (self.A ** 2).sum(1).max()
        self.Lmax = (0.25 * rows if kind == "log" else rows) + alpha

    def deriv(self, p, y):
        if self.kind == "log":
            return sigmoid(p) - y
        if self.kind == "square":
            return np.asarray(p) - y
        z = np.asarray(p) - y
        if self.kind == "dead":
            # .. squared epsilon-insensitive: exactly zero for well predicted samples ..
            return np.sign(z) * np.maximum(np.abs(z) - DEAD, 0.0)
        return np.clip(z, -self.delta, self.delta)

    def value(self, x):
        z = self.A.dot(x)
        if self.kind == "log":
            v = np.mean(logcosh_stable_softplus(z) - self.b * z)
        elif self.kind == "square":
            v = 0.5 * np.mean((z - self.b) ** 2)
        elif self.kind == "dead":
            v = 0.5 * np.mean(np.maximum(np.abs(z - self.b) - DEAD, 0.0) ** 2)
        else:
            a = np.abs(z - self.b)
            v = np.mean(np.where(a < self.delta, 0.5 * a * a, self.delta * (a - 0.5 * self.delta)))
        return v + 0.5 * self.alpha * float(x.dot(x))

    def grad(self, x):
        return self.A.T.dot(self.deriv(self.A.dot(x), self.b)) / self.n + self.alpha * x


def make_loss(kind, A, b, alpha):
    import copt.loss

    return {"log": copt.loss.LogLoss, "square": copt.loss.SquareLoss, "huber": copt.loss.HuberLoss}[kind](A, b, alpha)


def make_deriv(kind, A, b):
    """Derivative oracle of the stochastic solvers: the one of copt.loss, or a user's own."""
    if kind == "dead":
        return lambda p, y: np.sign(p - y) * np.maximum(np.abs(p - y) - DEAD, 0.0)
    return make_loss(kind, A, b, 0.0).partial_deriv


# ------------------------------------------------------------------ simulated user code
class Plan:
    """Failure plan of one oracle: call index -> action."""

    def __init__(self, actions=None):
        self.actions = dict(actions or {})


class Oracle:
    """Wraps user code: counts calls, keeps the guard alive, applies planned faults, logs."""

    def __init__(self, run, name, fn, plan=None, cap=200000, on_call=None, quiet=False):
        self.run, self.name, self.fn = run, name, fn
        self.plan = plan.actions if plan is not None else {}
        self.calls = 0
        self.cap = cap
        self.on_call = on_call
        self.quiet = quiet
        self.stopped = False

    def __call__(self, *a, **k):
        GUARD.reset()
        i = self.calls
        self.calls += 1
        if self.calls > self.cap:
            raise Violation("unbounded", "%s called more than %d times" % (self.name, self.cap))
        if self.on_call is not None:
            self.on_call(self.name, a, k)
        act = self.plan.get(i)
        if act is not None:
            r = act(self, a, k)
            if r is not NotImplemented:
                return r
        out = self.fn(*a, **k)
        return out


def raiser(exc):
    def act(oracle, a, k):
        oracle.run.fault("raise", oracle.name, type(exc).__name__)
        raise exc

    return act


# ------------------------------------------------------------------ penalties, blocks and reference prox
def gen_groups(src, p):
    """Increasing, contiguous, disjoint groups, possibly with gaps."""
    groups, j = [], 0
    while j < p:
        if src.chance(20):
            j += 1  # not penalised
            continue
        w = src.int(1, min(4, p - j))
        groups.append(np.arange(j, j + w))
        j += w
    if not groups:
        groups = [np.arange(p)]
    return groups


class BlockPen:
    """Reference of a block-separable penalty: list of (features, prox on the block)."""

    def __init__(self, blocks, prox_block, value, obj, factory):
        self.blocks, self.prox_block, self.value, self.obj, self.factory = blocks, prox_block, value, obj, factory


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def group_soft(v, t):
    nrm = np.sqrt((v * v).sum())
    return v * (1 - t / nrm) if nrm > t else np.zeros_like(v)


def pair_tv(v, t):
    a, b = v
    if abs(a - b) <= 2 * t:
        return np.array([(a + b) / 2.0] * 2)
    s = np.sign(a - b)
    return np.array([a - s * t, b + s * t])


def gen_block_penalty(src, p, kinds):
    """A penalty the stochastic solvers accept, with its reference."""
    import copt.penalty

    kind = src.choice(kinds)
    beta = src.choice([0.05, 0.3, 1.0, 0.01])
    if kind == "none":
        return kind, BlockPen([np.array([j]) for j in range(p)], lambda v, t, h: v, lambda x: 0.0, None, lambda: None)
    if kind == "l1":
        pen = copt.penalty.L1Norm(beta)
        return kind, BlockPen([np.array([j]) for j in range(p)], lambda v, t, h: soft(v, beta * t),
                              lambda x: beta * np.abs(x).sum(), pen, lambda: pen.prox_factory(p))
    if kind == "group":
        groups = gen_groups(src, p)
        pen = copt.penalty.GroupL1(beta, groups)
        blocks, penal, j = [], [], 0
        for g in groups:
            while j < g[0]:
                blocks.append(np.array([j])); penal.append(False); j += 1
            blocks.append(np.array(g)); penal.append(True); j = g[-1] + 1
        while j < p:
            blocks.append(np.array([j])); penal.append(False); j += 1
        return kind, BlockPen(blocks, lambda v, t, h: group_soft(v, beta * t) if penal[h] else v,
                              lambda x: beta * sum(np.linalg.norm(x[g]) for g in groups), pen, lambda: pen.prox_factory(p))
    if kind in ("fl1", "fl2"):
        pen = copt.penalty.FusedLasso(beta)
        start = 0 if kind == "fl1" else 1
        blocks, j = [], 0
        if start == 1:
            blocks.append(np.array([0])); j = 1
        while j < p:
            if j + 1 < p:
                blocks.append(np.array([j, j + 1])); j += 2
            else:
                blocks.append(np.array([j])); j += 1

        def val(x):
            return beta * sum(abs(x[bl[0]] - x[bl[1]]) for bl in blocks if len(bl) == 2)

        fac = (lambda: pen.prox_1_factory(p)) if kind == "fl1" else (lambda: pen.prox_2_factory(p))
        return kind, BlockPen(blocks, lambda v, t, h: pair_tv(v, beta * t) if len(v) == 2 else v, val, pen, fac)
    raise core.HarnessError(kind)


def close(a, b, scale, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + scale)))
