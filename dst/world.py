"""One simulated problem for any of the solvers: an immutable description, fresh user objects built from it, and one call.

Every call the solver makes to user code goes through `hook(name, fn, *args, **kw)`; names: fun, jac, prox1, prox2,
lmo, deriv, step, callback, linop.  The default hook just performs the call.
"""
import itertools

import numpy as np
from scipy import sparse
from scipy.sparse import linalg as splinalg

from dst import problems as pb
from dst import seams
from dst.core import GUARD, HarnessError, Violation, hx

FULL = ["pgd", "apgd", "tos", "pdhg"]
STOCH = ["saga", "svrg", "vrtos", "sfw"]
ALL = FULL + ["fw"] + STOCH


def setup():
    import copt.penalty  # noqa

    seams.install()
    GUARD.install()


def direct(name, fn, *a, **k):
    return fn(*a, **k)


# ------------------------------------------------------------------ reference prox operators
_tv_cache = {}


def _tv_patterns(p):
    """All sign patterns of the differences of a fused-lasso solution: x = M v + lam * c."""
    if p in _tv_cache:
        return _tv_cache[p]
    Ms, cs = [], []
    for pat in itertools.product((0, 1, -1), repeat=p - 1):
        seg = [[0]]
        sg = []
        for j, s in enumerate(pat):
            if s == 0:
                seg[-1].append(j + 1)
            else:
                seg.append([j + 1])
                sg.append(s)
        M, c = np.zeros((p, p)), np.zeros(p)
        for k, S in enumerate(seg):
            left = sg[k - 1] if k > 0 else 0  # sign of x[seg k] - x[seg k-1]
            right = sg[k] if k < len(sg) else 0
            for i in S:
                for j in S:
                    M[i, j] = 1.0 / len(S)
                c[i] = (right - left) / len(S)
        Ms.append(M)
        cs.append(c)
    _tv_cache[p] = (np.array(Ms), np.array(cs))
    return _tv_cache[p]


def prox_tv(v, lam):
    """Exact 1-D total-variation prox by enumeration of the sign patterns (small vectors)."""
    p = len(v)
    if p == 1:
        return v.copy()
    M, c = _tv_patterns(p)
    cand = M.dot(v) + lam * c
    obj = 0.5 * ((cand - v) ** 2).sum(1) + lam * np.abs(np.diff(cand, axis=1)).sum(1)
    return cand[int(np.argmin(obj))]


def proj_simplex(v, r):
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - r
    k = np.nonzero(u - c / np.arange(1, len(v) + 1) > 0)[0][-1]
    return np.maximum(v - c[k] / (k + 1), 0)


class Term:
    """A non-smooth term: reference value and prox, and how to build the library's object."""

    def __init__(self, kind, value, prox, make):
        self.kind, self.value, self.prox, self.make = kind, value, prox, make


def gen_term(src, p, kinds, shape=None):
    import copt.constraint as cc
    import copt.penalty as cp

    kind = src.choice(kinds)
    beta = src.choice([0.05, 0.3, 1.0, 0.01])
    r = src.choice([1.0, 0.3, 4.0])
    if kind == "none":
        return Term(kind, lambda x: 0.0, lambda v, t: v, lambda: None)
    if kind == "l1":
        return Term(kind, lambda x: beta * np.abs(x).sum(), lambda v, t: pb.soft(v, beta * t), lambda: cp.L1Norm(beta))
    if kind == "group":
        groups = pb.gen_groups(src, p)

        def pg(v, t):
            out = v.copy()
            for g in groups:
                out[g] = pb.group_soft(v[g], beta * t)
            return out

        return Term(kind, lambda x: beta * sum(np.linalg.norm(x[g]) for g in groups), pg, lambda: cp.GroupL1(beta, [g.copy() for g in groups]))
    if kind == "fl":
        return Term(kind, lambda x: beta * np.abs(np.diff(x)).sum(), lambda v, t: prox_tv(v, beta * t), lambda: cp.FusedLasso(beta))
    if kind == "trace":
        def pt(v, t):
            U, s, Vt = np.linalg.svd(v.reshape(shape), full_matrices=False)
            return ((U * np.maximum(s - beta * t, 0)) @ Vt).ravel()

        return Term(kind, lambda x: beta * np.linalg.svd(x.reshape(shape), compute_uv=False).sum(), pt, lambda: cp.TraceNorm(beta, shape))
    if kind == "traceball":
        def ptb(v, t):
            U, s, Vt = np.linalg.svd(v.reshape(shape), full_matrices=False)
            return ((U * (s if s.sum() <= r else proj_simplex(s, r))) @ Vt).ravel()

        return Term(kind, lambda x: 0.0 if np.linalg.svd(x.reshape(shape), compute_uv=False).sum() <= r * (1 + 1e-9) else np.inf, ptb, lambda: cc.TraceBall(r, shape))
    if kind == "tv2d":
        return Term(kind, None, None, lambda: cp.TotalVariation2D(beta, shape))

    def ind(feas):
        return lambda x: 0.0 if feas(x) else np.inf

    if kind == "linf":
        return Term(kind, ind(lambda x: np.abs(x).max() <= r * (1 + 1e-9)), lambda v, t: np.clip(v, -r, r), lambda: cc.LinfBall(r))
    if kind == "l2ball":
        return Term(kind, ind(lambda x: np.linalg.norm(x) <= r * (1 + 1e-9)), lambda v, t: v * min(1.0, r / max(np.linalg.norm(v), 1e-300)), lambda: cc.L2Ball(r))
    if kind == "l1ball":
        return Term(kind, ind(lambda x: np.abs(x).sum() <= r * (1 + 1e-9)),
                    lambda v, t: v if np.abs(v).sum() <= r else np.sign(v) * proj_simplex(np.abs(v), r), lambda: cc.L1Ball(r))
    if kind == "simplex":
        return Term(kind, ind(lambda x: x.min() >= -1e-9 and abs(x.sum() - r) <= 1e-9 * r), lambda v, t: proj_simplex(v, r), lambda: cc.SimplexConstraint(r))
    raise HarnessError(kind)


SINGLE = ["none", "l1", "group", "fl", "linf", "l2ball", "l1ball", "simplex"]
# pairs whose sum has a closed-form prox (so that the optimum is known independently): second after first
PAIRS = [("l1", "none"), ("none", "l1"), ("fl", "none"), ("none", "fl"), ("group", "none"), ("none", "group"), ("fl", "l1"), ("l1", "fl"),
         ("l1", "group"), ("group", "l1"), ("l1", "linf"), ("linf", "l1"), ("none", "none"), ("none", "simplex"), ("l1ball", "none"), ("l1", "l1")]


def sum_prox(t1, t2):
    """Prox of the sum, for the pairs above."""
    ks = (t1.kind, t2.kind)
    a, b = t1, t2
    order = {"fl": 0, "l1": 1, "group": 2, "linf": 3}
    if "none" in ks:
        o = t2 if t1.kind == "none" else t1
        return o.prox
    if order[a.kind] > order[b.kind]:
        a, b = b, a
    return lambda v, t: b.prox(a.prox(v, t), t)


class World:
    """Description of one simulated problem."""

    def __init__(self, run, solvers, strongly=False, small=False, cons=("l1", "simplex", "trace"), tv2d=False, terms=None, loss_kinds=None, scaled=False):
        src = run.src
        np.random.seed(12345)
        self.run = run
        self.solver = src.choice(list(solvers))
        so = self.solver
        self.n, self.p = (src.int(1, 6), src.int(1, 4)) if small else pb.gen_dims(src, 8, 6)
        self.shape = None
        use_shape = so in ("pgd", "apgd", "tos") and src.chance(12)
        if use_shape:
            self.shape = (2, src.int(2, 3) if not small else 2)
            if not small and src.chance(40):
                self.shape = self.shape[::-1]
            self.p = self.shape[0] * self.shape[1]
        self.cons = None
        if so in ("fw", "sfw"):
            self.cons = src.choice(list(cons))
            if self.cons == "trace":
                self.shape = (2, src.int(2, 3)) if src.chance(60) else (3, src.int(2, 3))
                self.p = self.shape[0] * self.shape[1]
        self.A = pb.gen_A(src, self.n, self.p, full_rank=strongly)
        self.fmt = src.choice(["dense", "csr"] if so in FULL + ["fw"] else pb.FORMATS)
        if self.fmt == "csr" and src.chance(40):
            self.fmt = src.choice(["csr0", "csru"])
        lk = ["log", "square"] if so in STOCH else (loss_kinds or ["log", "square", "huber"])
        self.lossk = src.choice(lk)
        self.b = pb.gen_labels(src, self.n, unit=self.lossk == "log")
        self.alpha = src.choice([0.1, 1.0] if strongly else [0.0, 0.1, 1.0])
        if scaled and so != "pdhg" and src.chance(15):
            # .. other units: the condition number stays, step sizes change by orders of magnitude ..
            c = src.choice([10.0, 30.0, 0.1])
            self.A, self.alpha = c * self.A, c * c * self.alpha
            if self.lossk != "log":
                self.b = c * self.b
        self.ref = pb.RefLoss(self.lossk, self.A, self.b, self.alpha)
        self.L = float(self.ref.L) + 1e-6
        self.radius = src.choice([1.0, 0.3, 4.0])
        self.jac = src.choice([True, "callable"])
        self.t1 = self.t2 = None
        self.opt = {}
        o = self.opt
        if so in ("pgd", "apgd"):
            kinds = list(terms or SINGLE)
            if self.shape is not None:
                kinds = ["trace", "traceball", "l1"] + (["tv2d"] if tv2d else [])
            self.t1 = gen_term(src, self.p, kinds, self.shape)
            o["step"] = src.choice(["backtracking", "callable"])
            o["factor"] = src.choice([0.6, 0.5, 0.9])
        elif so == "tos":
            if self.shape is not None:
                self.t1 = gen_term(src, self.p, ["trace", "traceball"] + (["tv2d"] if tv2d else []), self.shape)
                self.t2 = gen_term(src, self.p, ["none"])
                if src.chance(50):
                    self.t1, self.t2 = self.t2, self.t1
            else:
                k1, k2 = src.choice(PAIRS)
                self._pair(src, k1, k2)
            o["line_search"] = not src.chance(30)
            o["step_size"] = src.choice([None, 1.0 / self.L, 0.3 / self.L, 5.0 / self.L])
            if not o["line_search"] and o["step_size"] is not None:
                o["step_size"] = min(o["step_size"], 1.0 / self.L)
            o["h_Lipschitz"] = src.choice([None, None, "auto"])
            if o["h_Lipschitz"] == "auto":
                o["h_Lipschitz"] = {"none": 0}.get(self.t2.kind, None)
        elif so == "pdhg":
            k1, k2 = src.choice(PAIRS)
            self.Lop = src.choice(["none", "diff", "diff-sparse", "diff-op", "eye"]) if self.p > 1 else "none"
            if self.Lop.startswith("diff"):
                self.t1 = gen_term(src, self.p, [src.choice(["none", "l1"])])
                self.t2 = gen_term(src, self.p, ["l1"])
            else:
                self._pair(src, k1, k2)
            o["line_search"] = not src.chance(35)
            nL = 2.0 if self.Lop.startswith("diff") else 1.0
            # Condat: 1/sigma - tau |L|^2 >= L_f / 2 (here with a margin)
            o["step_size"] = 0.9 / (self.L + nL)
            o["step_size2"] = src.choice([None, 0.9 / nL])
            if o["line_search"]:
                o["step_size"] = src.choice([1.0, 0.1, 0.9 / (self.L + nL)])
                o["step_size2"] = src.choice([None, 0.5])
        elif so in ("saga", "svrg"):
            self.pk, self.pen = pb.gen_block_penalty(src, self.p, ["none", "l1", "group", "fl1", "fl2"])
            self.step = src.choice([1.0 / 3, 0.1]) / self._lstoch([self.pen])
        elif so == "vrtos":
            self.pk, self.pen = pb.gen_block_penalty(src, self.p, ["none", "l1", "group", "fl1"])
            self.pk2, self.pen2 = pb.gen_block_penalty(src, self.p, ["none", "l1", "group", "fl2"])
            self.step = src.choice([1.0 / 3, 0.1]) / self._lstoch([self.pen, self.pen2])
        elif so == "fw":
            self.lmo_variant = "pairwise" if (self.cons == "l1" and src.chance(50)) else "vanilla"
            self.rule = src.choice(["DR", "backtracking", "sublinear", "callable"])
            if self.lmo_variant == "pairwise" and self.rule == "sublinear":
                self.rule = "callable"
        elif so == "sfw":
            self.lmo_variant = "pairwise" if (self.cons == "l1" and src.chance(30)) else "vanilla"
            self.variant = src.choice(["SAG", "SAGA", "MHK", "LF"])
            self.rule = src.choice(["sublinear", "DR", "callable"]) if self.lmo_variant == "vanilla" else "DR"
            self.batch = src.int(1, self.n)
        self.x0_kind = src.choice(["zero", "normal", "int"]) if self.cons is None else "set"
        self.x0, self.x0_rep = self._x0(src)
        run.cfg = dict(solver=so, n=self.n, p=self.p, fmt=self.fmt, loss=self.lossk, alpha=self.alpha, cons=self.cons,
                       t1=self.t1.kind if self.t1 else None, t2=self.t2.kind if self.t2 else None, opt=o)
        run.sched(so)

    def _pair(self, src, k1, k2):
        self.t1 = gen_term(src, self.p, [k1])
        self.t2 = gen_term(src, self.p, [k2])

    def _lstoch(self, pens):
        S = self.A != 0
        dmax = 1.0
        for pen in pens:
            for bl in pen.blocks:
                c = S[:, bl].any(axis=1).sum()
                if c:
                    dmax = max(dmax, self.n / c)
        return self.ref.Lmax - self.alpha + self.alpha * dmax + 1e-3

    def _x0(self, src):
        p = self.p
        if self.cons is None:
            if self.x0_kind == "zero":
                return np.zeros(p), None
            v = pb.bulk(src.rand(), p)
            if self.x0_kind == "int":
                return np.round(3 * v).astype(int), None
            return 2 * v, None
        if self.lmo_variant == "pairwise":
            rep = (src.choice([1.0, -1.0]), src.draw(p))
            x0 = np.zeros(p)
            x0[rep[1]] = rep[0] * self.radius
            return x0, rep
        if self.cons == "simplex":
            v = np.abs(pb.bulk(src.rand(), p)) + 1e-3
            return self.radius * v / v.sum(), None
        x0 = np.zeros(p)
        if src.chance(50):
            x0[0] = -self.radius
        return x0, None

    # ---------------------------------------------------------------- user objects
    def fresh(self):
        """New user objects: data, loss, penalties, set, starting point."""
        import copt

        u = {}
        u["A"] = pb.as_format(self.A, self.fmt)
        u["b"] = self.b.copy()
        u["x0"] = self.x0.copy()
        u["loss"] = pb.make_loss(self.lossk, u["A"] if self.solver not in STOCH else pb.as_format(self.A, "csr"), u["b"], self.alpha)
        if self.t1 is not None:
            u["pen1"] = self.t1.make()
        if self.t2 is not None:
            u["pen2"] = self.t2.make()
        if self.cons is not None:
            u["con"] = {"l1": lambda: copt.constraint.L1Ball(self.radius), "simplex": lambda: copt.constraint.SimplexConstraint(self.radius),
                        "trace": lambda: copt.constraint.TraceBall(self.radius, self.shape)}[self.cons]()
        if self.solver in ("saga", "svrg", "vrtos"):
            u["bp1"] = self.pen.factory()
            if self.solver == "vrtos":
                u["bp2"] = self.pen2.factory()
        if self.solver == "pdhg":
            D = np.diff(np.eye(self.p), axis=0)
            u["L"] = {"none": lambda: None, "diff": lambda: D, "diff-sparse": lambda: sparse.csr_matrix(D), "diff-op": lambda: splinalg.aslinearoperator(D.copy()),
                      "eye": lambda: np.eye(self.p)}[self.Lop]()
        return u

    def state(self, u):
        """Fingerprint of everything the caller passes in."""
        out = {}

        def put(k, v, depth=0):
            if v is None or isinstance(v, (int, float, str, bool, tuple)) and not isinstance(v, tuple):
                out[k] = repr(v)
            elif isinstance(v, np.ndarray):
                out[k] = (v.dtype.str, v.shape, v.tobytes())
            elif sparse.issparse(v):
                c = v.tocoo()
                out[k] = (v.format, v.shape, c.row.tobytes(), c.col.tobytes(), c.data.tobytes(), v.data.tobytes())
            elif isinstance(v, (list, tuple)):
                out[k] = len(v)
                for i, w in enumerate(v):
                    put("%s[%d]" % (k, i), w, depth + 1)
            elif callable(v) and getattr(v, "__closure__", None) is not None:
                for nm, cell in zip(v.__code__.co_freevars, v.__closure__):
                    w = cell.cell_contents
                    if isinstance(w, (np.ndarray, float, int, list)) or sparse.issparse(w):
                        put("%s.%s" % (k, nm), w, depth + 1)
            elif hasattr(v, "__dict__") and depth < 3:
                for nm in sorted(vars(v)):
                    if nm.startswith("_"):
                        continue  # a private cache is not what the caller passed in
                    put("%s.%s" % (k, nm), vars(v)[nm], depth + 1)

        for k in sorted(u):
            put(k, u[k])
        return out

    # ---------------------------------------------------------------- one call
    def solve(self, u, hook=direct, max_iter=20, tol=1e-6, callback=None, x0=None, **over):
        """One call of the solver.  `callback`: user callback, None for a silent one (still hooked), or "absent"."""
        import copt

        so, o = self.solver, self.opt
        loss = u["loss"]
        x0 = u["x0"] if x0 is None else x0
        ucb = callback if callback is not None else (lambda dl: None)

        def cb(dl):
            return hook("callback", ucb, dl)

        if callback == "absent":
            cb = None

        def wrap(name, fn):
            if fn is None:
                return None
            return lambda *a, **k: hook(name, fn, *a, **k)

        def prox(pen):
            return None if pen is None else pen.prox

        if so in ("pgd", "apgd", "fw"):
            if self.jac is True:
                fun, jac = wrap("fun", loss.f_grad), True
            else:
                fun, jac = wrap("fun", loss), wrap("jac", lambda x: loss.f_grad(x)[1])
        if so in ("pgd", "apgd"):
            step = "backtracking" if o["step"] == "backtracking" else wrap("step", lambda dl: 1.0 / self.L)
            kw = dict(prox=wrap("prox1", prox(u["pen1"])), jac=jac, tol=tol, max_iter=max_iter, callback=cb, step=step,
                      accelerated=so == "apgd", backtracking_factor=o["factor"])
            kw.update(over)
            return copt.minimize_proximal_gradient(fun, x0, **kw)
        if so == "tos":
            kw = dict(prox_1=wrap("prox1", prox(u["pen1"])), prox_2=wrap("prox2", prox(u["pen2"])), tol=tol, max_iter=max_iter, callback=cb,
                      line_search=o["line_search"], step_size=o["step_size"], h_Lipschitz=o["h_Lipschitz"])
            kw.update(over)
            return copt.minimize_three_split(wrap("fun", loss.f_grad), x0, **kw)
        if so == "pdhg":
            Lop = u["L"]
            if isinstance(Lop, splinalg.LinearOperator):
                M = Lop
                Lop = splinalg.LinearOperator(M.shape, dtype=float, matvec=wrap("linop", M.matvec), rmatvec=wrap("linop", M.rmatvec))
            kw = dict(prox_1=wrap("prox1", prox(u["pen1"])), prox_2=wrap("prox2", prox(u["pen2"])), L=Lop, tol=tol, max_iter=max_iter, callback=cb,
                      step_size=o["step_size"], step_size2=o["step_size2"], line_search=o["line_search"])
            kw.update(over)
            return copt.minimize_primal_dual(wrap("fun", loss.f_grad), x0, **kw)
        if so == "fw":
            con = u["con"]
            lmo = con.lmo_pairwise if self.lmo_variant == "pairwise" else con.lmo
            seen = {"max": 1.0, "k": 0}

            def lmo_seen(*a, _lmo=lmo):
                out = _lmo(*a)
                seen["max"] = float(out[3])
                return out

            lmo = lmo_seen

            def policy(dl):
                seen["k"] += 1
                return min(seen["max"], 2.0 / (seen["k"] + 1))

            step = wrap("step", policy) if self.rule == "callable" else self.rule
            kw = dict(x0_rep=self.x0_rep, variant=self.lmo_variant, jac=jac, step=step, lipschitz=self.L if self.rule == "DR" else None,
                      max_iter=max_iter, tol=tol, callback=cb)
            kw.update(over)
            return copt.minimize_frank_wolfe(fun, x0, wrap("lmo", lmo), **kw)
        deriv = wrap("deriv", loss.partial_deriv)
        if so in ("saga", "svrg", "vrtos"):
            def bprox(f):
                if f is None:
                    return None
                return (wrap("prox", f[0]), f[1])

            fn = getattr(copt, "minimize_" + so)
            if so == "vrtos":
                kw = dict(alpha=self.alpha, prox_1=bprox(u["bp1"]), prox_2=bprox(u["bp2"]), max_iter=max_iter, tol=tol, callback=cb)
            else:
                kw = dict(alpha=self.alpha, prox=bprox(u["bp1"]), max_iter=max_iter, tol=tol, callback=cb)
            kw.update(over)
            return fn(deriv, u["A"], u["b"], x0, over.pop("step_size", self.step), **{k: v for k, v in kw.items() if k != "step_size"})
        if so == "sfw":
            con = u["con"]
            lmo = con.lmo_pairwise if self.lmo_variant == "pairwise" else con.lmo
            cnt = [0]

            def spolicy(dl):
                cnt[0] += 1
                return 2.0 / (cnt[0] + 2), 0.5

            step = wrap("step", spolicy) if self.rule == "callable" else self.rule
            kw = dict(batch_size=self.batch, step_size=step, lipschitz=self.L if self.rule == "DR" else None, max_iter=max_iter, tol=tol,
                      variant=self.variant, lmo_variant=self.lmo_variant, callback=cb)
            kw.update(over)
            return copt.minimize_sfw(deriv, u["A"], u["b"], x0, wrap("lmo", lmo), x0_rep=self.x0_rep, **kw)
        raise HarnessError(so)

    # ---------------------------------------------------------------- reference optimum
    def composite(self):
        """(value, prox) of the non-smooth part of the composite problem."""
        if self.solver in ("pgd", "apgd"):
            return self.t1.value, self.t1.prox
        if self.solver == "tos":
            return (lambda x: self.t1.value(x) + self.t2.value(x)), sum_prox(self.t1, self.t2)
        if self.solver == "pdhg":
            if self.Lop.startswith("diff"):
                b2 = self.t2.value(np.ones(1))
                tv = Term("fl", lambda x: b2 * np.abs(np.diff(x)).sum(), lambda v, t: prox_tv(v, b2 * t), None)
                return (lambda x: self.t1.value(x) + tv.value(x)), sum_prox(tv, self.t1)
            return (lambda x: self.t1.value(x) + self.t2.value(x)), sum_prox(self.t1, self.t2)
        if self.solver in ("saga", "svrg"):
            return self.pen.value, self._block_prox(self.pen)
        if self.solver == "vrtos":
            return (lambda x: self.pen.value(x) + self.pen2.value(x)), None
        raise HarnessError(self.solver)

    def _block_prox(self, pen):
        def f(v, t):
            out = v.copy()
            for h, bl in enumerate(pen.blocks):
                out[bl] = pen.prox_block(v[bl], t, h)
            return out

        return f

    def optimum(self, iters=4000, tol=1e-11):
        """Independent proximal gradient (accelerated, with restarts) on the composite problem.  Returns (F*, x*)."""
        val, prox = self.composite()
        x = prox(np.zeros(self.p), 1.0 / self.L)
        y, t = x.copy(), 1.0
        for _ in range(iters):
            xn = prox(y - self.ref.grad(y) / self.L, 1.0 / self.L)
            if (y - xn).dot(xn - x) > 0:
                t, y2 = 1.0, xn.copy()
            else:
                tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
                y2 = xn + (t - 1) / tn * (xn - x)
                t = tn
            done = np.linalg.norm(xn - y) * self.L < tol and np.linalg.norm(xn - x) * self.L < tol
            x, y = xn, y2
            if done:
                break
        return self.ref.value(x) + val(x), x


class Recorder:
    """Hook that logs every call: order, arguments (fingerprints) and results."""

    def __init__(self, run=None):
        import hashlib

        self.h = hashlib.sha256()
        self.counts = {}
        self.n = 0
        self.run = run

    def __call__(self, name, fn, *a, **k):
        GUARD.reset()
        self.n += 1
        self.counts[name] = self.counts.get(name, 0) + 1
        if name in ("callback", "step"):
            dl = a[0]
            x = dl.get("x")
            self.h.update(name.encode() + (np.asarray(x, dtype=float).tobytes() if x is not None else b""))
        else:
            self.h.update(name.encode())
            for v in a:
                if isinstance(v, np.ndarray):
                    self.h.update(np.ascontiguousarray(v, dtype=float).tobytes())
        return fn(*a, **k)

    def digest(self):
        return self.h.hexdigest()


def result_state(res):
    """Exact contents of a result."""
    out = []
    for k in sorted(res.keys()):
        v = res[k]
        if isinstance(v, np.ndarray):
            out.append((k, v.dtype.str, v.shape, v.tobytes()))
        elif isinstance(v, dict):
            out.append((k, sorted((repr(a), repr(b)) for a, b in v.items())))
        elif isinstance(v, (int, float, bool, str, list, np.generic)):
            out.append((k, repr(v)))
    return out
