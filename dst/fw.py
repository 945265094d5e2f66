"""Simulated runs of minimize_frank_wolfe: scenario and recording wrappers (shared by C10 and C11)."""
import numpy as np

from dst import problems as pb
from dst import seams, sfw
from dst.core import GUARD, InjectedFault, Violation, hx


def setup():
    import copt.penalty  # noqa

    seams.install()
    GUARD.install()


def generate(run, rules, pairwise_pct=50):
    src = run.src
    import copt

    np.random.seed(12345)
    s = sfw.Scenario()
    s.cons = src.choice(["l1", "simplex", "trace"])
    s.n, s.p = pb.gen_dims(src, 8, 6)
    if s.cons == "trace":
        s.shape = (src.int(2, 3), src.int(2, 3))
        s.p = s.shape[0] * s.shape[1]
    s.lmo_variant = "pairwise" if (s.cons == "l1" and src.chance(pairwise_pct)) else "vanilla"
    s.A = pb.gen_A(src, s.n, s.p)
    s.fmt = src.choice(["dense", "csr"])
    s.lossk = src.choice(["log", "square", "huber"])
    s.b = pb.gen_labels(src, s.n, unit=s.lossk == "log")
    s.alpha = src.choice([0.0, 0.1, 1.0])
    s.radius = src.choice([1.0, 0.3, 4.0])
    s.rule = src.choice(rules)
    s.jac = src.choice([True, "callable"])
    s.ref = pb.RefLoss(s.lossk, s.A, s.b, s.alpha)
    s.L = float(s.ref.L) + 1e-6
    s.loss = pb.make_loss(s.lossk, pb.as_format(s.A, s.fmt), s.b.copy(), s.alpha)
    if s.cons == "l1":
        s.con = copt.constraint.L1Ball(s.radius)
        s.diam = 2 * s.radius
    elif s.cons == "simplex":
        s.con = copt.constraint.SimplexConstraint(s.radius)
        s.diam = np.sqrt(2) * s.radius
    else:
        s.con = copt.constraint.TraceBall(s.radius, s.shape)
        s.diam = 2 * s.radius
    s.x0, s.x0_rep = start(run, s)
    return s


def start(run, s):
    src = run.src
    if s.lmo_variant == "pairwise":
        rep = (src.choice([1.0, -1.0]), src.draw(s.p))
        x0 = np.zeros(s.p)
        x0[rep[1]] = rep[0] * s.radius
        return x0, rep
    kind = src.choice(["vertex", "center", "interior", "boundary"])
    v = pb.bulk(src.rand(), s.p)
    if s.cons == "simplex":
        v = np.abs(v) + 1e-3
        if kind == "vertex":
            v = np.eye(s.p)[0]
        elif kind == "center":
            v = np.ones(s.p)
        return s.radius * v / v.sum(), None
    if kind == "center":
        return np.zeros(s.p), None
    if kind == "vertex":
        x0 = np.zeros(s.p)
        x0[0] = -s.radius
        return x0, None
    return v * (s.radius * (1.0 if kind == "boundary" else 0.6) / max(sfw.gauge(s, v), 1e-9)), None


class Life:
    def __init__(self):
        self.lmos = []  # (u, x, active, direction, fw, away, max_step)
        self.marks = []  # (number of lmo calls so far, x, active)
        self.steps = []  # steps handed out by the user policy
        self.fcalls = 0
        self.res = None
        self.error = None
        self.killed = False


def simulate(run, s, x0, rep, max_iter, tol, kill=None, user_step=None, stop_at=None, lipschitz="auto"):
    """One call.  kill: number of user-code calls after which the caller dies; stop_at: callback index returning False."""
    import copt

    life = Life()
    calls = [0]
    base_lmo = s.con.lmo_pairwise if s.lmo_variant == "pairwise" else s.con.lmo

    def tick(what):
        GUARD.reset()
        if kill is not None and calls[0] >= kill:
            run.fault("kill", what)
            raise InjectedFault(what)
        calls[0] += 1
        if calls[0] > 400000:
            raise Violation("unbounded", "more than 400000 user-code calls")

    def fun(x):
        tick("fun")
        life.fcalls += 1
        return s.loss.f_grad(x) if s.jac is True else s.loss(x)

    def jac(x):
        tick("jac")
        return s.loss.f_grad(x)[1]

    def lmo(u, x, active_set=None):
        tick("lmo")
        act = dict(active_set) if active_set is not None else None
        uu, xx = np.array(u, dtype=float, copy=True), np.array(x, dtype=float, copy=True)
        out = base_lmo(u, x, active_set)
        life.lmos.append((uu, xx, act, np.array(out[0], dtype=float, copy=True), out[1], out[2], float(out[3])))
        run.sched(out[1] if out[1] is None else repr(out[1]))
        return out

    def step(kw):
        tick("step")
        g = user_step(life)
        life.steps.append(g)
        return g

    def cb(dl):
        tick("callback")
        act = dl.get("active_set")
        life.marks.append((len(life.lmos), np.array(dl["x"], dtype=float, copy=True), dict(act) if act is not None else None))
        run.log("cb", len(life.marks), hx(life.marks[-1][1]))
        if stop_at is not None and len(life.marks) - 1 >= stop_at:
            if len(life.marks) - 1 == stop_at:
                run.fault("cancel", stop_at)
            return False
        return None

    if lipschitz == "auto":
        lipschitz = s.L if s.rule == "DR" else None
    GUARD.start()
    try:
        life.res = copt.minimize_frank_wolfe(
            fun, x0.copy(), lmo, x0_rep=rep, variant=s.lmo_variant, jac=True if s.jac is True else jac,
            step=step if s.rule == "callable" else s.rule, lipschitz=lipschitz, max_iter=max_iter, tol=tol, callback=cb)
    except InjectedFault:
        life.killed = True
    except Violation:
        raise
    except Exception as e:
        life.error = e
    finally:
        GUARD.stop()
    run.probe("lives")
    run.probe("killed", int(life.killed))
    run.probe("iterations", len(life.lmos))
    return life


# ------------------------------------------------------------------ independent geometry
def best_vertex_value(s, u):
    """max of <u, v> over the constraint set."""
    if s.cons == "l1":
        return s.radius * float(np.abs(u).max())
    if s.cons == "simplex":
        return s.radius * float(u.max())
    return s.radius * float(np.linalg.svd(u.reshape(s.shape), compute_uv=False)[0])


def gap(s, x):
    g = s.ref.grad(x)
    return best_vertex_value(s, -g) + float(g.dot(x))


def _simplex(v, r):
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - r
    k = np.nonzero(u - c / np.arange(1, len(v) + 1) > 0)[0][-1]
    return np.maximum(v - c[k] / (k + 1), 0)


def project(s, v):
    if s.cons == "simplex":
        return _simplex(v, s.radius)
    if s.cons == "l1":
        if np.abs(v).sum() <= s.radius:
            return v
        return np.sign(v) * _simplex(np.abs(v), s.radius)
    U, sv, Vt = np.linalg.svd(v.reshape(s.shape), full_matrices=False)
    if sv.sum() <= s.radius:
        return v
    return ((U * _simplex(sv, s.radius)) @ Vt).ravel()


def near_optimum(s, iters=1500, tol=1e-9):
    """A feasible point with an objective close to the optimum (its value is an upper bound of the optimum)."""
    x = project(s, s.x0.astype(float))
    y, t = x.copy(), 1.0
    best, bx = s.ref.value(x), x
    for k in range(iters):
        xn = project(s, y - s.ref.grad(y) / s.L)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        y = xn + (t - 1) / tn * (xn - x)
        if (y - xn).dot(xn - x) < 0 and k % 50 == 49:
            y, tn = xn.copy(), 1.0
        x, t = xn, tn
        if k % 10 == 9:
            v = s.ref.value(x)
            if v < best:
                best, bx = v, x
            if gap(s, x) < tol:
                break
    return best
