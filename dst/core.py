"""Core of the deterministic simulator: choice source, run record, violations, step guard.

One integer decides everything: a run draws every choice (configuration, schedule, fault,
generated data) from one `Src`.  `Src` records each drawn value, so a failing run is a list
of small integers that can be shrunk (0 is always the simplest alternative) and replayed.
"""
import collections
import hashlib
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold in this run.  `cls` is the violation class (used by the shrinker)."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class SimCrash(BaseException):
    """A simulated process dies here: nothing of it runs any more, only durable state survives."""


class InjectedFault(Exception):
    """Exception raised by simulated user code."""


def derive_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Src:
    """Source of choices; records what it hands out."""

    MAX = 200000

    def __init__(self, seed=None, prefix=None):
        self.replay = prefix
        self.rng = random.Random(seed) if prefix is None else None
        self.out = []

    def draw(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        i = len(self.out)
        if self.replay is not None:
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        if i >= self.MAX:
            raise HarnessError("too many choices in one run")
        self.out.append(v)
        return v

    def chance(self, percent):
        """True with the given probability (in percent); False is the simplest."""
        return self.draw(1000) >= 1000 - int(percent * 10)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def seed(self):
        return self.draw(1 << 20)

    def rand(self):
        """A private PRNG (for bulk data) seeded from one choice."""
        return random.Random(self.seed())

    def weighted(self, pairs):
        """pairs: [(value, weight)], simplest first."""
        tot = sum(w for _, w in pairs)
        k = self.draw(tot)
        for v, w in pairs:
            if k < w:
                return v
            k -= w
        raise HarnessError("weighted")


class Run:
    """One simulated execution: choices, event log, counters."""

    KEEP = 400

    def __init__(self, src):
        self.src = src
        self.h = hashlib.sha256()
        self.sh = hashlib.sha256()  # schedule/fault signature only
        self.events = []
        self.nev = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.0
        self.nontrivial = False
        self.cfg = {}
        self.counts = collections.Counter()

    def log(self, *ev):
        self.nev += 1
        r = repr(ev)
        self.h.update(r.encode())
        if len(self.events) < self.KEEP:
            self.events.append(r)
        elif len(self.events) < 2 * self.KEEP:
            self.events.append(r)
        else:
            del self.events[self.KEEP]
            self.events.append(r)

    def sched(self, *ev):
        """A scheduling or fault decision: part of the measure of distinct interleavings."""
        self.sh.update(repr(ev).encode())

    def fault(self, kind, *detail):
        self.faults[kind] += 1
        self.nontrivial = True
        self.sched("fault", kind, detail)
        self.log("FAULT", kind, *detail)

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self.h.hexdigest()


def hx(arr):
    """Short exact fingerprint of an array (for logs)."""
    import numpy as np

    a = np.ascontiguousarray(np.asarray(arr, dtype=float))
    return hashlib.sha256(a.tobytes()).hexdigest()[:12]


# ------------------------------------------------------------------ step guard
class StepGuard:
    """Deterministic watchdog: counts jumps executed inside copt code between oracle calls.

    A loop that never calls out and never ends is detected after a fixed number of steps,
    not after a wall-clock time."""

    TOOL = 3

    def __init__(self):
        self.left = None
        self.limit = 0
        self.installed = False

    def install(self, module_prefix="copt"):
        if self.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif-steps")
        ev = mon.events.JUMP
        mon.register_callback(self.TOOL, ev, self._cb)
        seen = set()

        def visit(code):
            if code in seen:
                return
            seen.add(code)
            mon.set_local_events(self.TOOL, code, ev)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    visit(c)

        root = os.path.join(REPO, "copt")
        for name, mod in list(sys.modules.items()):
            if name == module_prefix or name.startswith(module_prefix + "."):
                for obj in list(vars(mod).values()):
                    self._visit_obj(obj, visit, root, 0)
        self.installed = True

    def _visit_obj(self, obj, visit, root, depth):
        f = getattr(obj, "__wrapped__", obj)
        code = getattr(f, "__code__", None)
        if code is not None and code.co_filename.startswith(root):
            visit(code)
        if isinstance(obj, property):
            for g in (obj.fget, obj.fset):
                if g is not None:
                    self._visit_obj(g, visit, root, depth + 1)
        if isinstance(obj, type) and depth < 2:
            for v in list(vars(obj).values()):
                if isinstance(v, (staticmethod, classmethod)):
                    v = v.__func__
                self._visit_obj(v, visit, root, depth + 1)

    def _cb(self, code, off, dest):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                raise Violation(
                    "hang",
                    "no progress: %d loop iterations inside %s without calling out"
                    % (self.limit, code.co_name),
                )

    def start(self, limit=3_000_000):
        self.limit = limit
        self.left = limit

    def reset(self):
        if self.left is not None:
            self.left = self.limit

    def stop(self):
        self.left = None


GUARD = StepGuard()
