"""Simulated runs of minimize_sfw: scenario, recording wrappers (shared by C07 and C08)."""
import numpy as np
from scipy import sparse

from dst import problems as pb
from dst import seams
from dst.core import GUARD, InjectedFault, Violation, hx


def setup():
    import copt.penalty  # noqa

    seams.install()
    GUARD.install()


class Scenario:
    pass


def generate(run, pairwise_ok=True):
    src = run.src
    import copt

    np.random.seed(12345)
    s = Scenario()
    s.cons = src.choice(["l1", "simplex", "trace"])
    s.n, s.p = pb.gen_dims(src, 8, 6)
    if s.cons == "trace":
        s.shape = (src.int(2, 3), src.int(2, 3))
        s.p = s.shape[0] * s.shape[1]
    s.A = pb.gen_A(src, s.n, s.p)
    s.fmt = src.choice(pb.FORMATS)
    s.lossk = src.weighted([("log", 2), ("square", 2), ("dead", 1)])
    s.b = pb.gen_labels(src, s.n, unit=s.lossk == "log")
    s.radius = src.choice([1.0, 0.3, 4.0])
    s.variant = src.choice(["SAG", "SAGA", "MHK", "LF"])
    s.lmo_variant = src.choice(["vanilla", "pairwise"]) if (s.cons == "l1" and pairwise_ok) else "vanilla"
    s.batch = src.int(1, s.n) if src.chance(60) else 1
    s.rule = src.choice(["sublinear", "DR", "callable"])
    s.epochs = src.weighted([(src.int(1, 4), 4), (src.int(5, 12), 1)])
    s.ref = pb.RefLoss(s.lossk, s.A, s.b, 0.0)
    s.lipschitz = float((s.ref.L + 1e-3) * src.choice([1.0, 0.3, 3.0]))
    s.policy = src.choice(seams.Sampler.KINDS)
    if s.cons == "l1":
        s.con = copt.constraint.L1Ball(s.radius)
    elif s.cons == "simplex":
        s.con = copt.constraint.SimplexConstraint(s.radius)
    else:
        s.con = copt.constraint.TraceBall(s.radius, s.shape)
    # starting point
    s.x0_rep = None
    if s.lmo_variant == "pairwise":
        s.x0_rep = (src.choice([1.0, -1.0]), src.draw(s.p))
        s.x0 = np.zeros(s.p)
        s.x0[s.x0_rep[1]] = s.x0_rep[0] * s.radius
    else:
        kind = src.choice(["vertex", "center", "interior", "boundary"])
        r = src.rand()
        v = pb.bulk(r, s.p)
        if s.cons == "simplex":
            v = np.abs(v) + 1e-3
            if kind == "vertex":
                v = np.eye(s.p)[0]
            elif kind == "center":
                v = np.ones(s.p)
            s.x0 = s.radius * v / v.sum()
        else:
            if kind == "center":
                s.x0 = np.zeros(s.p)
            elif kind == "vertex":
                s.x0 = np.zeros(s.p)
                s.x0[0] = -s.radius
            else:
                s.x0 = v * (s.radius * (1.0 if kind == "boundary" else 0.6) / max(gauge(s, v), 1e-9))
    s.nlives = 1
    if s.lmo_variant == "vanilla":
        s.nlives += src.weighted([(0, 6), (1, 3), (2, 1)])
    run.cfg = dict(cons=s.cons, n=s.n, p=s.p, fmt=s.fmt, loss=s.lossk, radius=s.radius, variant=s.variant, lmo=s.lmo_variant,
                   batch=s.batch, rule=s.rule, epochs=s.epochs, policy=s.policy, lives=s.nlives)
    run.nontrivial = s.policy != "identity"
    run.sched(s.policy, s.variant, s.lmo_variant, s.batch, s.rule)
    return s


def gauge(s, x):
    """Norm whose ball of radius s.radius is the constraint set (l1, trace)."""
    if s.cons == "l1":
        return float(np.abs(x).sum())
    return float(np.linalg.svd(x.reshape(s.shape), compute_uv=False).sum())


def infeasibility(s, x):
    """0 when x is in the set; otherwise how far out (relative)."""
    if not np.all(np.isfinite(x)):
        return np.inf
    if s.cons == "simplex":
        return max(-float(x.min()), abs(float(x.sum()) - s.radius)) / s.radius
    return max(0.0, gauge(s, x) / s.radius - 1.0)


class Life:
    """Events of one call: steps, each with its derivative, oracle and user-step events."""

    def __init__(self):
        self.marks = []  # (x, active set or None)
        self.steps = []  # dict per step between callbacks
        self.cur = self.fresh()
        self.res = None
        self.error = None
        self.killed = False

    @staticmethod
    def fresh():
        return {"deriv": [], "lmo": [], "user": [], "order": []}


def simulate(run, s, x0, kill):
    """One call of minimize_sfw; kill: None or the number of user-code calls after which the caller dies."""
    import copt

    src = run.src
    life = Life()
    calls = [0]
    index_of = {float(v): i for i, v in enumerate(s.b)}
    deriv = pb.make_deriv(s.lossk, pb.as_format(s.A, "csr"), s.b)
    base_lmo = s.con.lmo_pairwise if s.lmo_variant == "pairwise" else s.con.lmo

    def tick(what):
        GUARD.reset()
        if kill is not None and calls[0] >= kill:
            run.fault("kill", what)
            raise InjectedFault(what)
        calls[0] += 1
        if calls[0] > 100000:
            raise Violation("unbounded", "more than 100000 user-code calls")

    def f_deriv(pv, yv):
        tick("derivative")
        pa, ya = np.asarray(pv, dtype=float), np.asarray(yv, dtype=float)
        if pa.shape != ya.shape or pa.ndim != 1:
            raise Violation("derivative-args", "derivative evaluated on shapes %s %s" % (pa.shape, ya.shape))
        for u, v in zip(pa, ya):
            if float(v) not in index_of:
                raise Violation("derivative-args", "derivative evaluated at a label that is not in the data: %r" % v)
            life.cur["deriv"].append((index_of[float(v)], float(u)))
            run.sched(index_of[float(v)])
        life.cur["order"].append("deriv")
        return deriv(pv, yv)

    def lmo(u, x, active_set=None):
        tick("lmo")
        act = dict(active_set) if active_set is not None else None
        uu, xx = np.array(u, dtype=float, copy=True), np.array(x, dtype=float, copy=True)
        out = base_lmo(u, x, active_set)
        life.cur["lmo"].append((uu, xx, act, np.array(out[0], dtype=float, copy=True), out[1], out[2], float(out[3])))
        life.cur["order"].append("lmo")
        return out

    def user_step(kw):
        tick("step")
        sx = src.choice([0.0, 0.1, 0.5, 1.0, 0.25])
        sa = src.choice([1.0, 0.5, 0.1])
        life.cur["user"].append((sx, sa))
        return sx, sa

    def cb(dl):
        tick("callback")
        act = dl.get("active_set")
        life.marks.append((np.array(dl["x"], dtype=float, copy=True), dict(act) if act is not None else None))
        life.steps.append(life.cur)
        life.cur = Life.fresh()
        run.log("step", len(life.marks), hx(life.marks[-1][0]))

    sampler = seams.Sampler(s.policy, src.seed(), log=run.log)
    seams.set_sampler(sampler)
    GUARD.start()
    try:
        life.res = copt.minimize_sfw(
            f_deriv, pb.as_format(s.A, s.fmt), s.b.copy(), x0.copy(), lmo, x0_rep=s.x0_rep, batch_size=s.batch,
            step_size=user_step if s.rule == "callable" else s.rule,
            lipschitz=s.lipschitz if s.rule == "DR" else None, max_iter=s.epochs, tol=0, callback=cb,
            variant=s.variant, lmo_variant=s.lmo_variant)
    except InjectedFault:
        life.killed = True
    except Violation:
        raise
    except Exception as e:
        life.error = e
    finally:
        GUARD.stop()
        seams.set_sampler(None)
    return life


def lives(run, s):
    """All lives of the scenario: (start, life)."""
    x = s.x0
    for k in range(s.nlives):
        kill = None
        if k < s.nlives - 1:
            kill = run.src.draw(4 * s.epochs * s.n + 4)
        life = simulate(run, s, x, kill)
        yield x, life
        run.probe("lives")
        run.probe("killed", int(life.killed))
        run.probe("steps", max(0, len(life.marks) - 1))
        if life.marks:
            x = life.marks[-1][0]


def too_large(s, life):
    """True when the library's ValueError is justified: the step taken exceeds the weight of the away vertex."""
    cur = life.cur
    if not cur["lmo"] or s.lmo_variant != "pairwise":
        return False
    act, away = cur["lmo"][-1][2], cur["lmo"][-1][5]
    w = act.get(away, 0.0)
    t = len(life.marks) - 1
    if s.rule == "callable":
        sx = cur["user"][-1][0]
    elif s.rule == "sublinear":
        sx = sublinear(s, t)[0]
    else:
        return False
    return sx > w - 1e-12


def sublinear(s, t):
    """Published default steps (x, aggregate) of each variant at step t."""
    if s.variant in ("SAG", "SAGA"):
        return 2.0 / (t + 2), None
    if s.variant == "MHK":
        g = 2.0 / (t + 8)
        return g, g ** (2.0 / 3)
    m = s.n / s.batch
    return 2 * (2 * m + t) / ((t + 1) * (4 * m + t)), 2 * m / (2 * m + t + 1)
