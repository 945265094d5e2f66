"""Seams for the sources of nondeterminism of a solver run: NumPy's random generator, the
operating-system entropy, and the clocks.  Installed once per worker; every intercepted call is
answered by the sampler of the current simulated task (or passed through outside a simulation).
"""
import random as _random
import threading

import numpy as np

from dst.core import HarnessError

_orig = {}
_tls = threading.local()


class Sampler:
    """Decides every random draw the library asks NumPy's global generator for.

    kind: the visiting policy (a schedule of samples); decided by the run's choice source."""

    KINDS = ["identity", "uniform", "reverse", "rotate", "constant", "evens-odds", "sticky"]

    def __init__(self, kind, seed, log=None):
        self.kind = kind
        self.r = _random.Random(seed)
        self.log = log
        self.n_perm = 0
        self.draws = []  # what was handed out, in order
        self._const = {}

    def _note(self, what, val):
        self.draws.append((what, val))
        if self.log is not None:
            self.log("draw", what, val if len(val) <= 12 else hash(tuple(val)))

    def perm(self, n):
        self.n_perm += 1
        k = self.kind
        if k == "identity":
            p = list(range(n))
        elif k == "reverse":
            p = list(range(n))[::-1]
        elif k == "rotate":
            s = self.n_perm % max(n, 1)
            p = list(range(s, n)) + list(range(s))
        elif k == "constant":
            if n not in self._const:
                q = list(range(n))
                self.r.shuffle(q)
                self._const[n] = q
            p = list(self._const[n])
        elif k == "evens-odds":
            p = list(range(0, n, 2)) + list(range(1, n, 2))
        else:
            p = list(range(n))
            self.r.shuffle(p)
        return p

    def ints(self, lo, hi, size):
        n = hi - lo
        k = self.kind
        if k == "identity":
            v = [lo + (j % n) for j in range(size)]
        elif k == "reverse":
            v = [lo + n - 1 - (j % n) for j in range(size)]
        elif k == "constant":
            c = self.r.randrange(n)
            v = [lo + c] * size
        elif k == "sticky":
            v, c = [], self.r.randrange(n)
            for _ in range(size):
                if self.r.random() < 0.3:
                    c = self.r.randrange(n)
                v.append(lo + c)
        else:
            v = [lo + self.r.randrange(n) for _ in range(size)]
        return v

    # -- the numpy functions ------------------------------------------------
    def shuffle(self, x):
        n = len(x)
        p = self.perm(n)
        if isinstance(x, np.ndarray):
            y = x.copy()
            # 'identity' etc. describe the resulting visiting order, not a relative permutation
            if x.ndim == 1 and np.array_equal(np.sort(x), np.arange(n)):
                x[:] = np.array(p, dtype=x.dtype)
            else:
                x[:] = y[p]
            self._note("order", [int(t) for t in x] if x.ndim == 1 and x.dtype.kind in "iu" else p)
        else:
            y = list(x)
            for i, j in enumerate(p):
                x[i] = y[j]
            self._note("order", p)

    def permutation(self, n):
        if isinstance(n, (int, np.integer)):
            p = self.perm(int(n))
            self._note("order", p)
            return np.array(p)
        a = np.array(n)
        p = self.perm(len(a))
        r = a[p]
        self._note("order", [int(t) for t in r] if r.ndim == 1 and r.dtype.kind in "iu" else p)
        return r

    def randint(self, low, high=None, size=None, dtype=int, **kw):
        if high is None:
            low, high = 0, low
        if size is None:
            v = self.ints(int(low), int(high), 1)
            self._note("ints", v)
            return v[0]
        cnt = int(np.prod(size))
        v = self.ints(int(low), int(high), cnt)
        self._note("ints", v)
        return np.array(v, dtype=dtype).reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise HarnessError("weighted choice not simulated")
        pool = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        n = len(pool)
        if size is None:
            return pool[self.ints(0, n, 1)[0]]
        cnt = int(np.prod(size))
        if replace:
            v = self.ints(0, n, cnt)
        else:
            if cnt > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            q = self.perm(n)
            if self.kind in ("identity", "reverse", "evens-odds"):
                s = (self.n_perm * cnt) % n
                q = q[s:] + q[:s]
            v = q[:cnt]
        self._note("choice", [int(t) for t in v])
        return pool[v].reshape(size)


class Foreign:
    """Counts uses of entropy the sampler does not own."""

    def __init__(self):
        self.uses = []


def set_sampler(s):
    _tls.sampler = s


def get_sampler():
    return getattr(_tls, "sampler", None)


_NAMES = ["shuffle", "permutation", "randint", "choice"]
foreign = Foreign()
_foreign_seed = [0]


def install():
    """Route np.random's module-level functions and unseeded generators through the sampler."""
    if "default_rng" in _orig:
        return
    for name in _NAMES:
        _orig[name] = getattr(np.random, name)

        def make(name):
            def f(*a, **k):
                s = get_sampler()
                if s is None:
                    return _orig[name](*a, **k)
                return getattr(s, name)(*a, **k)

            f.__name__ = name
            return f

        setattr(np.random, name, make(name))
    _orig["default_rng"] = np.random.default_rng

    def default_rng(seed=None, *a, **k):
        if seed is None:
            foreign.uses.append("np.random.default_rng()")
            seed = _foreign_seed[0]
        return _orig["default_rng"](seed, *a, **k)

    np.random.default_rng = default_rng


def foreign_seed(v):
    """What the operating system's entropy pool answers from now on (for default_rng())."""
    _foreign_seed[0] = v


# ------------------------------------------------------------------ clocks
import datetime as _dtmod  # noqa: E402
import time as _time  # noqa: E402

clock = None  # object with .wall() and .mono() while a simulation owns the time
_RealDT = _dtmod.datetime


class FakeDatetime(_RealDT):
    @classmethod
    def now(cls, tz=None):
        if clock is None:
            return _RealDT.now(tz)
        return _RealDT.fromtimestamp(clock.wall(), tz)

    @classmethod
    def utcnow(cls):
        if clock is None:
            return _RealDT.now(_dtmod.timezone.utc).replace(tzinfo=None)
        return _RealDT.fromtimestamp(clock.wall(), _dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class DriftClock:
    """Wall and monotonic clocks that advance on every reading by drawn amounts."""

    def __init__(self, wall, mono, rnd):
        self.w, self.m, self.r = wall, mono, rnd
        self.readings = 0

    def mono(self):
        self.readings += 1
        self.m += self.r.random() * 0.5
        return self.m

    def wall(self):
        self.readings += 1
        self.w += self.r.random() * 0.5
        return self.w


def install_clock():
    """Route every clock a Python program can read through `clock` (call before copt is imported)."""
    if "time.time" in _orig:
        return
    for name, kind, ns in (("time", "wall", 0), ("time_ns", "wall", 1), ("monotonic", "mono", 0), ("monotonic_ns", "mono", 1), ("perf_counter", "mono", 0),
                           ("perf_counter_ns", "mono", 1), ("process_time", "mono", 0), ("process_time_ns", "mono", 1)):
        orig = getattr(_time, name)
        _orig["time." + name] = orig

        def make(orig, kind, ns):
            def f():
                if clock is None:
                    return orig()
                v = getattr(clock, kind)()
                return int(v * 1e9) if ns else v

            return f

        setattr(_time, name, make(orig, kind, ns))
    _dtmod.datetime = FakeDatetime


def set_clock(c):
    global clock
    clock = c
