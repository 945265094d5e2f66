"""C15: several solver calls at once, preempted between any two lines (or byte codes) of the library."""
import copy
import os
import sys
import threading

import numpy as np

from dst import core, seams, world
from dst.core import GUARD, HarnessError, Violation, hx

RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("a run draws one or two problems and two or three solver calls on them (the calls on one problem share data, loss, penalty and constraint objects), executes each alone, then all of them "
        "interleaved by a seeded scheduler that preempts at line or byte-code boundaries of copt, or nested in each other's callbacks; non-trivial: at least one switch")
REAL = ["all solvers", "losses, penalties, constraint sets, copt.tv_prox, copt.utils", "Python threads (one runs at a time, chosen by the scheduler)"]
STUB = ["NumPy's global generator (one deterministic sampler per call)", "user callback and oracle wrappers"]
ASSUMPTIONS = ["preemption points are the lines or byte codes of copt's own Python code; NumPy and SciPy calls are atomic", "pure-Python fall-back of numba"]
LEVEL_NOTE = ("seeded search over interleavings of 2-3 real solver calls at line/byte-code granularity with bitwise comparison against each call alone; no completeness claim")

COPT = os.path.join(os.path.realpath(core.REPO), "copt") + os.sep
COPT2 = os.path.join(core.REPO, "copt") + os.sep


def setup():
    world.setup()


class Call:
    def __init__(self, w, u, sampler, max_iter, tol, x0):
        self.w, self.u, self.sampler, self.max_iter, self.tol, self.x0 = w, u, sampler, max_iter, tol, x0

    def execute(self, inner=None, at=None):
        """inner: another call, made from this call's callback number `at`."""
        rec = world.Recorder()
        ncb = [0]
        seams.set_sampler(seams.Sampler(*self.sampler))
        self.inner_out = None

        def cb(dl):
            if inner is not None and ncb[0] == at:
                keep = seams.get_sampler()
                self.inner_out = inner.execute()
                seams.set_sampler(keep)
            ncb[0] += 1

        try:
            res = self.w.solve(self.u, rec, max_iter=self.max_iter, tol=self.tol, callback=cb, x0=self.x0)
            out = ("ok", world.result_state(res), rec.digest(), rec.n)
            self.x = np.array(res.x, dtype=float)
        except Violation:
            raise
        except Exception as e:
            out = ("raised", "%s: %s" % (type(e).__name__, e), rec.digest(), rec.n)
            self.x = None
        finally:
            seams.set_sampler(None)
        self.ncb = ncb[0]
        return out


class Scheduler:
    """Runs the calls in threads of which exactly one runs at any time; switches after a drawn number of steps inside copt."""

    def __init__(self, run, calls, opcodes, quantum):
        self.run, self.calls, self.opcodes, self.quantum = run, calls, opcodes, quantum
        self.go = [threading.Semaphore(0) for _ in calls]
        self.back = threading.Semaphore(0)
        self.left = 0
        self.out = [None] * len(calls)
        self.done = [False] * len(calls)
        self.exc = None
        self.steps = 0
        self.tls = threading.local()

    def step(self):
        self.left -= 1
        if self.left <= 0:
            self.back.release()
            self.go[self.tls.k].acquire()
            if self.exc is not None:
                raise Violation("aborted", "another call failed")

    def tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not (f.startswith(COPT) or f.startswith(COPT2)):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step()
        return self.local

    def body(self, k):
        self.tls.k = k
        self.go[k].acquire()
        try:
            if self.exc is None:
                sys.settrace(self.tracer)
                self.out[k] = self.calls[k].execute()
        except BaseException as e:
            if self.exc is None:
                self.exc = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            self.back.release()

    def go_all(self):
        src = self.run.src
        ths = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.calls))]
        for t in ths:
            t.start()
        last = None
        while not all(self.done):
            live = [k for k in range(len(self.calls)) if not self.done[k]]
            if self.exc is not None or self.steps > 60000:
                self.left = 1 << 60  # .. let them end ..
                k = live[0]
            else:
                others = [k for k in live if k != last] or live
                k = others[src.draw(len(others))]
                self.left = 1 + src.draw(self.quantum)
                self.run.sched(k, self.left)
                self.steps += 1
            if last is not None and k != last:
                self.run.nontrivial = True
                self.run.probe("switches")
            last = k
            self.go[k].release()
            if not self.back.acquire(timeout=100):
                raise HarnessError("scheduled thread does not yield")
        for t in ths:
            t.join(60)
        if self.exc is not None:
            raise self.exc


def run(run):
    src = run.src
    worlds = [world.World(run, world.ALL, tv2d=True)]
    cfgs = [run.cfg]
    if src.chance(30):
        worlds.append(world.World(run, world.ALL, tv2d=True))
        cfgs.append(run.cfg)
    run.cfg = dict(worlds=cfgs)
    us = [w.fresh() for w in worlds]
    calls = []
    for k in range(src.weighted([(2, 4), (3, 1)])):
        i = k % len(worlds)
        w, u = worlds[i], us[i]
        x0 = None
        if k >= len(worlds):
            if src.chance(50):
                w = copy.copy(w)
                twin = {"pgd": "apgd", "apgd": "pgd", "saga": "svrg", "svrg": "saga"}.get(w.solver)
                if twin:
                    w.solver = twin
                elif w.solver == "fw":
                    w.rule = src.choice(["DR", "backtracking"])
                elif w.solver == "sfw":
                    w.variant = src.choice(["SAG", "SAGA"])
            elif w.cons is None:
                x0 = u["x0"] + 1
        sampler = (src.choice(seams.Sampler.KINDS), src.seed())
        calls.append(Call(w, u, sampler, src.int(1, 5), src.choice([1e-6, 0.0, 1e-2]), x0))
    GUARD.start()
    alone = [c.execute() for c in calls]
    xs = [c.x for c in calls]
    ncb = [c.ncb for c in calls]
    states = [w.state(u) for w, u in zip(worlds, us)]
    for c, o in zip(calls, alone):
        if o[0] != "ok":
            raise Violation("unexpected-exception", "%s alone: %s" % (c.w.solver, o[1]))
    mode = src.weighted([("threads", 7), ("nested", 3)])
    run.log([c.w.solver for c in calls], mode, [o[3] for o in alone])
    if mode == "nested":
        at = src.draw(max(1, ncb[0]))
        out = [calls[0].execute(calls[1], at)]
        if calls[0].inner_out is not None:
            out.append(calls[0].inner_out)
            run.nontrivial = True
        run.probe("nested")
        run.sched("nested", at)
        what = "nested (%s inside callback %d of %s)" % (calls[1].w.solver, at, calls[0].w.solver)
    else:
        s = Scheduler(run, calls, src.chance(25), src.choice([40, 8, 200, 2]))
        s.go_all()
        out = s.out
        what = "interleaved"
        run.probe("opcode-granularity", int(s.opcodes))
    GUARD.stop()
    for c, a, b, x in zip(calls, alone, out, xs):
        run.log(hx(x))
        if b[0] == "raised":
            raise Violation("differs", "%s: %s raised %s (alone it returned)" % (what, c.w.solver, b[1]))
        if a != b:
            raise Violation("differs", "%s: %s gives another %s than alone (calls: %s)" % (
                what, c.w.solver, "result" if a[1] != b[1] else "sequence of oracle calls", [q.w.solver for q in calls]))
    for w, u, s in zip(worlds, us, states):
        if w.state(u) != s:
            raise Violation("differs", "%s: shared objects were modified" % what)
