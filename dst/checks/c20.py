"""C20: Trace records every run faithfully, whatever the clocks do and wherever the run ends."""
import numpy as np
from scipy import sparse

from dst import seams, world
from dst.core import GUARD, Violation, hx

RUNS = {"quick": 24000, "thorough": 200000}
RULE = ("a run draws solver, problem, one or two Trace objects (function or snapshots, freq) and a clock scenario (wall clock set back or forward, frozen clocks, slow calls), possibly a "
        "cancellation, a failing objective, a failing traced function, a restart with the same Trace or a second run between its calls; non-trivial: a clock event, a freq above one or a fault")
REAL = ["copt.utils.Trace", "all solvers"]
STUB = ["every clock of the time and datetime modules", "user callback, objective and traced function"]
ASSUMPTIONS = ["monotonic, performance and process clocks of the simulated machine advance together; the wall clock is set by an adversary"]
LEVEL_NOTE = ("seeded search over clock behaviours, cancellation and failure points with every list of the real Trace compared to an independent recorder after every call; no completeness claim")


class UserFault(Exception):
    """Raised by the simulated user code."""


def setup():
    seams.install_clock()
    world.setup()


def cleanup():
    seams.set_clock(None)


class Clock:
    """Simulated machine: a monotonic time and a wall clock somebody keeps setting."""

    def __init__(self, run, src):
        self.run, self.r = run, src.rand()
        self.m = src.choice([100.0, 0.0, 1e7, 12.5])
        self.w = src.choice([1.6e9, 1e9, 3600.0 * 24 * 3, 2.5e9])
        self.kind = src.weighted([("steady", 2), ("back", 3), ("wild", 3), ("frozen", 2)])
        self.t0 = self.m
        self.readings = 0

    def advance(self, dt):
        if self.kind != "frozen":
            self.m += dt
            self.w += dt
            self.run.simtime += dt

    def _read(self):
        self.readings += 1
        if self.kind == "frozen":
            if self.r.random() < 0.1:
                self.m += 1.0
                self.w += 1.0
        else:
            self.advance(self.r.choice([0.0, 1e-6, 1e-3, 0.2]))

    def disturb(self):
        """Somebody sets the wall clock."""
        if self.kind == "back" and self.r.random() < 0.3:
            self.w = max(1.0, self.w - self.r.choice([0.5, 60.0, 3600.0, 86400.0 * 400]))
            self.run.fault("clock-back")
        elif self.kind == "wild" and self.r.random() < 0.4:
            d = self.r.choice([-0.5, -3600.0, -86400.0, 1.0, 3600.0, 86400.0 * 365, -86400.0 * 365])
            self.w = min(max(1.0, self.w + d), 3e9)
            self.run.fault("clock-back" if d < 0 else "clock-forward")

    def mono(self):
        self._read()
        self.disturb()
        return self.m

    def wall(self):
        self._read()
        self.disturb()
        return self.w


def snap(x):
    if sparse.issparse(x):
        return x.toarray().copy()
    return np.array(x, copy=True)


def same(a, b):
    if sparse.issparse(a):
        a = a.toarray()
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def scalar(v):
    if isinstance(v, (str, type(None))):
        return ("lit", v)
    return ("arr", np.asarray(v, dtype=float).tobytes()) if not callable(v) else ("fun", id(v))


class Watched:
    """A Trace and the recorder it is compared to."""

    def __init__(self, run, src, w, loss, clock):
        import copt.utils

        self.run, self.clock = run, clock
        self.freq = src.choice([1, 2, 3, src.int(4, 9), 1])
        self.withf = src.chance(50)
        self.failat = src.draw(8) if self.withf and src.chance(12) else None
        self.loss = loss
        self.calls = 0
        self.fcalls = 0
        self.exp = []  # (x, f, step, earliest, latest)
        lo = clock.m
        if self.withf:
            self.t = copt.utils.Trace(self.f, freq=self.freq) if self.freq != 1 or src.chance(50) else copt.utils.Trace(self.f)
        else:
            self.t = copt.utils.Trace(freq=self.freq) if self.freq != 1 or src.chance(50) else copt.utils.Trace()
        self.born = (lo, clock.m)
        if self.freq > 1:
            run.nontrivial = True

    def f(self, x):
        self.fcalls += 1
        self.clock.advance(self.clock.r.choice([0.0, 1e-3, 2.0]))
        if self.failat is not None and self.fcalls > self.failat:
            raise UserFault("traced function")
        return self.value(x)

    def value(self, x):
        x = np.asarray(x.toarray() if sparse.issparse(x) else x, dtype=float)
        return float(np.sum(np.cos(x.ravel() * (1 + np.arange(x.size)))))

    def call(self, dl):
        x, step = snap(dl["x"]), scalar(dl["step_size"])
        lo = self.clock.m
        n0 = self.fcalls
        due = self.calls % self.freq == 0
        self.calls += 1
        r = self.t(dl)
        if r is False:
            raise Violation("cancels", "Trace returned False: it stops the run")
        if not same(dl["x"], x):
            raise Violation("changes-iterate", "Trace changed the iterate")
        if self.withf and self.fcalls - n0 != (1 if due else 0):
            raise Violation("wrong-calls", "call %d (freq %d): the function was evaluated %d times" % (self.calls - 1, self.freq, self.fcalls - n0))
        if due:
            self.exp.append((x, step, lo, self.clock.m))
        self.check("call %d" % (self.calls - 1))

    def check(self, when):
        t, k = self.t, len(self.exp)
        where = "after %s (freq %d, %s)" % (when, self.freq, "function" if self.withf else "snapshots")
        main = t.trace_fx if self.withf else t.trace_x
        for nm, lst in (("trace_fx" if self.withf else "trace_x", main), ("trace_time", t.trace_time), ("trace_step_size", t.trace_step_size)):
            if len(lst) != k:
                raise Violation("wrong-length", "%s: %s has %d entries, expected %d" % (where, nm, len(lst), k))
        last = 0.0
        for j, (x, step, lo, hi) in enumerate(self.exp):
            if self.withf:
                v = self.value(x)
                if not float(t.trace_fx[j]) == v:
                    raise Violation("wrong-value", "%s: trace_fx[%d] is %r, the function at that iterate is %r" % (where, j, t.trace_fx[j], v))
            elif not same(t.trace_x[j], x):
                raise Violation("wrong-snapshot", "%s: trace_x[%d] is %s, the iterate was %s" % (where, j, t.trace_x[j], x))
            if scalar(t.trace_step_size[j]) != step:
                raise Violation("wrong-step", "%s: trace_step_size[%d] is %r" % (where, j, t.trace_step_size[j]))
            s = t.trace_time[j]
            s = s.total_seconds() if hasattr(s, "total_seconds") else float(s)
            if not (s >= 0):
                raise Violation("negative-time", "%s: trace_time[%d] is %r" % (where, j, s))
            if not s >= last:
                raise Violation("time-decreases", "%s: trace_time[%d] is %r after %r" % (where, j, s, last))
            if not (lo - self.born[1] - 1e-5 <= s <= hi - self.born[0] + 1e-5):
                raise Violation("wrong-time", "%s: trace_time[%d] is %r, elapsed between %r and %r" % (where, j, s, lo - self.born[1], hi - self.born[0]))
            last = s


def run(run):
    src = run.src
    w = world.World(run, world.ALL, small=True)
    clock = Clock(run, src)
    iters = src.int(1, 12)
    second = src.chance(25)
    again = src.chance(20)
    nest = src.chance(12)
    cancel = src.draw(iters + 2) if src.chance(15) else None
    fail = src.draw(40) if src.chance(20) else None
    run.cfg.update(clock=clock.kind, iters=iters, cancel=cancel, fail=fail, second=second, again=again)
    run.sched(w.solver, clock.kind, iters, cancel, fail, second, again)
    if clock.kind != "steady":
        run.nontrivial = True
    seams.set_sampler(seams.Sampler(src.choice(["uniform", "identity"]), src.seed()))
    seams.set_clock(clock)
    GUARD.start()
    n, ncb, nested = [0], [0], [False]
    try:
        u = w.fresh()
        traces = [Watched(run, src, w, u["loss"], clock) for _ in range(2 if second else 1)]
        run.sched(*[(t.freq, t.withf, t.failat) for t in traces])

        def callback(dl):
            ncb[0] += 1
            clock.disturb()
            for t in traces:
                t.call(dl)
            if nest and not nested[0] and ncb[0] >= 2:
                # .. a whole other run between two calls of this one ..
                nested[0] = True
                run.nontrivial = True
                other = Watched(run, src, w, u["loss"], clock)
                other.failat = None
                w.solve(w.fresh(), max_iter=3, tol=0.0, callback=other.call)
                other.check("nested run")
                for t in traces:
                    t.check("nested run")
            if cancel is not None and ncb[0] > cancel:
                run.fault("cancel")
                return False

        def hook(name, fn, *a, **k):
            if name != "callback":
                clock.advance(clock.r.choice([0.0, 0.0, 1e-4, 0.5, 40.0 if clock.r.random() < 0.05 else 0.01]))
                clock.disturb()
                n[0] += 1
                if fail is not None and n[0] > fail:
                    run.fault("user-exception")
                    raise UserFault(name)
            return fn(*a, **k)

        for life in range(2 if again else 1):
            try:
                res = w.solve(u, hook, max_iter=iters, tol=src.choice([0.0, 1e-6, 1e-2]), callback=callback)
                run.log("x", hx(np.asarray(res.x, dtype=float)))
                ended = "return"
            except UserFault:
                run.nontrivial = True
                ended = "failure"
            for t in traces:
                if ended == "failure" and t.failat is not None and t.fcalls > t.failat:
                    # .. the call that failed records nothing anywhere ..
                    run.fault("traced-function-fails")
                t.check(ended)
            if ended == "failure":
                break
        run.log(w.solver, ncb[0], [len(t.exp) for t in traces], [[round(float(s), 9) for s in t.t.trace_time] for t in traces])
        run.probe("ended-" + ended)
        run.counts["callbacks"] += ncb[0]
        run.counts["clock-readings"] += clock.readings
    except (Violation, UserFault):
        raise
    except Exception as e:
        raise Violation("unexpected-exception", "%s: %s: %s" % (w.solver, type(e).__name__, e))
    finally:
        GUARD.stop()
        seams.set_clock(None)
        seams.set_sampler(None)
