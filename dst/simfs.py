"""Simulated processes, disk and network for the dataset loaders.

Simulated processes run the real loader code (each with its own instance of copt.datasets) against a
scratch directory.  Every file and network operation they make goes through this layer, which yields
to the scheduler, injects faults, and keeps dead processes from having any effect.  Everything is
decided by the run's choice source.

Disk model: data written reaches the (simulated) page cache when the process flushes its buffer, and
survives a process crash from then on; it survives a power loss only after fsync; file creation,
rename and removal are ordered and survive both.
"""
import bz2
import collections
import builtins
import email.message
import errno
import fcntl
import hashlib
import io
import lzma
import gzip  # noqa
import os
import random
import shutil
import socket
import sys
import tarfile
import tempfile
import threading
import time
import types
import urllib.error
import urllib.request
import zipfile  # noqa

from dst import core
from dst.core import HarnessError, SimCrash, Violation

O = {}  # original functions
_tls = threading.local()
ROOT = None  # scratch directory of this worker
SIM = None  # the simulation in progress
_module_code = [None]

MAX_OPS = 20000


def cur():
    return getattr(_tls, "proc", None)


class Proc:
    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.pid = 4000 + len(sim.procs)
        sim.procs.append(self)
        self.ops = 0
        self.plan = {}  # op index -> fault
        self.kind_plan = []  # [op kind, remaining count, fault]
        self.faulted = 0
        self.dead = False
        self.files = set()
        self.fds = set()
        self.threaded = False
        self.go = threading.Semaphore(0)
        self.finished = False
        self.result = None
        self.error = None
        self.module = None

    def die(self):
        self.dead = True
        for f in list(self.files):
            f._drop()
        for fd in list(self.fds):
            try:
                O["os.close"](fd)
            except OSError:
                pass
        self.fds.clear()
        self.sim.run.log("dead", self.name)


class Sim:
    """One run: disk (scratch directory), network, processes, scheduler."""

    def __init__(self, run):
        global SIM
        self.run, self.src = run, run.src
        self.procs = []
        self.main = threading.Semaphore(0)
        self.synced = {}  # inode -> durable length; absent: never written by us
        self.dirty = set()
        self.rnd = random.Random(run.src.seed())
        self.net = None
        self.net_forbidden = False
        self.read_only = False
        self.viol = None
        self.switch = 100
        self.opkinds = collections.Counter()
        self.data = self.env_data = os.path.join(ROOT, "data")
        self.tf = False  # processes find TensorFlow's file system layer
        SIM = self
        self.wipe()

    def wipe(self):
        if os.path.isdir(ROOT):
            for n in os.listdir(ROOT):
                p = os.path.join(ROOT, n)
                shutil.rmtree(p) if os.path.isdir(p) else O["os.unlink"](p)
        O["os.mkdir"](os.path.join(ROOT, "tmp"))
        tempfile.tempdir = os.path.join(ROOT, "tmp")
        tempfile._name_sequence = _Names()

    def rel(self, path):
        p = os.path.abspath(os.fspath(path)) if not isinstance(path, int) else "fd"
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p[len(ROOT) + 1:] if p.startswith(ROOT) else p

    # ---------------------------------------------------------------- operations
    def op(self, kind, path, mutating=False, fallible=True, partial=False):
        """Called before every operation of a simulated process.

        Returns None or, for partial writes, the fraction to perform before the fault `self.after`."""
        p = cur()
        if p.dead:
            raise SimCrash()
        if p.threaded:
            # .. other processes run here ..
            self.main.release()
            p.go.acquire()
            if p.dead:
                raise SimCrash()
        i = p.ops
        p.ops += 1
        if p.ops > MAX_OPS:
            self.flag("unbounded", "more than %d file operations in one call" % MAX_OPS)
        self.opkinds[kind] += 1
        rel = self.rel(path) if path is not None else ""
        self.run.log(p.name, kind, rel)
        fault = p.plan.pop(i, None)
        if fault is None:
            for ent in p.kind_plan:
                if ent[0] == kind:
                    if ent[1] == 0:
                        fault = ent[2]
                        p.kind_plan.remove(ent)
                    else:
                        ent[1] -= 1
                    break
        if self.read_only and mutating:
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), rel)
        if fault is None:
            return None
        if fault in ("EIO", "ENOSPC", "EACCES", "EMFILE"):
            if not fallible:
                return None
            if fault == "ENOSPC" and not mutating:
                fault = "EIO"
        p.faulted += 1
        self.run.fault(fault, kind)
        self.run.probe("fault@" + kind)
        if fault == "crash":
            if partial and self.rnd.random() < 0.7:
                return ("crash", self.rnd.random())
            p.die()
            raise SimCrash()
        if fault == "interrupt":
            raise KeyboardInterrupt()
        if partial and self.rnd.random() < 0.7:
            return (fault, self.rnd.random())
        raise OSError(getattr(errno, fault), os.strerror(getattr(errno, fault)), rel)

    def after_partial(self, what):
        p = cur()
        if what == "crash":
            p.die()
            raise SimCrash()
        raise OSError(getattr(errno, what), os.strerror(getattr(errno, what)))

    def wrote(self, fd):
        ino = os.fstat(fd).st_ino
        self.synced.setdefault(ino, 0)
        self.dirty.add(ino)

    def power_loss(self):
        """Everything that was not synced may be lost: files are cut back to a prefix that contains the synced part."""
        if self.tf:
            return  # (that layer has no way to make a file durable)
        self.run.fault("power-loss")
        cut = 0
        for base, dirs, names in O["os.walk"](ROOT):
            dirs.sort()
            for n in sorted(names):
                path = os.path.join(base, n)
                st = O["os.stat"](path)
                if st.st_ino in self.dirty:
                    lo, hi = self.synced.get(st.st_ino, 0), st.st_size
                    mode = self.rnd.randrange(3)
                    new = lo if mode == 0 else (hi if mode == 1 else lo + int((hi - lo) * self.rnd.random()))
                    if new < hi:
                        O["os.truncate"](path, new)
                        cut += 1
        self.dirty.clear()
        self.run.probe("files-cut-by-power-loss", cut)

    def snapshot(self):
        """Names, inodes, modification times and contents of the cache."""
        out = {}
        for base, dirs, names in O["os.walk"](self.data):
            for n in names + dirs:
                path = os.path.join(base, n)
                st = O["os.lstat"](path)
                if n in dirs:
                    out[self.rel(path)] = ("dir",)
                else:
                    with O["open"](path, "rb") as f:
                        out[self.rel(path)] = (st.st_ino, st.st_mtime_ns, hashlib.sha1(f.read()).hexdigest())
        return out

    # ---------------------------------------------------------------- processes
    def fresh_module(self):
        """A new instance of copt.datasets, as a new process would import it."""
        os.environ["COPT_DATA_DIR"] = self.env_data
        path = os.path.join(core.REPO, "copt", "datasets.py")
        if _module_code[0] is None:
            with O["open"](path, "rb") as f:
                _module_code[0] = compile(f.read(), path, "exec")
        m = types.ModuleType("copt.datasets")
        m.__file__ = path
        m.__package__ = "copt"
        if self.tf:
            # .. the import of TensorFlow succeeds in this process ..
            names = ["tensorflow", "tensorflow.compat", "tensorflow.compat.v1", "tensorflow.compat.v1.io"]
            keep = {n: sys.modules.get(n) for n in names}
            try:
                for n in names:
                    sys.modules[n] = types.ModuleType(n)
                    sys.modules[n].__path__ = []
                sys.modules[names[-1]].gfile = GFILE
                exec(_module_code[0], m.__dict__)
            finally:
                for n in names:
                    if keep[n] is None:
                        sys.modules.pop(n, None)
                    else:
                        sys.modules[n] = keep[n]
        else:
            exec(_module_code[0], m.__dict__)
        return m

    def _body(self, p, fn):
        _tls.proc = p
        try:
            p.result = fn(p.module)
        except SimCrash:
            pass
        except Violation:
            raise
        except BaseException as e:  # what the call raised
            p.error = e
        finally:
            _tls.proc = None
        if p.dead:
            p.result, p.error = None, None
        if self.viol is not None:
            raise self.viol

    def flag(self, cls, msg):
        """A violation seen inside a call (the loader may swallow the exception, so it is kept)."""
        if self.viol is None:
            self.viol = Violation(cls, msg)
        raise self.viol

    def call(self, p, fn):
        """Run one call of process p to the end, alone."""
        p.result, p.error, p.ops, p.faulted = None, None, 0, 0
        if p.module is None:
            p.module = self.fresh_module()
        self._body(p, fn)
        if p.error is not None and isinstance(p.error, (MemoryError,)):
            raise p.error
        return p

    def concurrently(self, procs, fns):
        """Run one call of each process, interleaved at every operation."""
        threads = []
        viol = []
        for p, fn in zip(procs, fns):
            p.result, p.error, p.ops, p.faulted, p.finished, p.threaded = None, None, 0, 0, False, True
            if p.module is None:
                p.module = self.fresh_module()

            def target(p=p, fn=fn):
                p.go.acquire()
                try:
                    self._body(p, fn)
                except Violation as v:
                    viol.append(v)
                finally:
                    p.finished = True
                    self.main.release()

            t = threading.Thread(target=target, daemon=True)
            t.start()
            threads.append(t)
        last, steps = None, 0
        while True:
            live = [p for p in procs if not p.finished]
            if not live:
                break
            if last in live and len(live) > 1 and not self.src.chance(self.switch):
                p = last
            elif len(live) > 1:
                p = live[self.src.draw(len(live))]
                if p is not last:
                    self.run.nontrivial = True
                    self.run.probe("switches")
            else:
                p = live[0]
            self.run.sched(p.name)
            last = p
            p.go.release()
            if not self.main.acquire(timeout=60):
                raise HarnessError("simulated process %s does not yield" % p.name)
            steps += 1
            if viol:
                for q in procs:  # .. let the threads end ..
                    if not q.finished:
                        q.die()
                        q.go.release()
                        self.main.acquire(timeout=60)
                raise viol[0]
        for t in threads:
            t.join(60)
        for p in procs:
            p.threaded = False
        return procs


class _Names:
    def __init__(self):
        self.k = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        return "t%06d" % self.k


# -------------------------------------------------------------------- files
class SimFile(io.BufferedIOBase):
    """Buffered file of a simulated process.  Deliberately not an io.BufferedWriter, so that NumPy writes through it."""

    def __init__(self, sim, proc, fd, name, mode, bufsize=8192, closefd=True):
        self._sim, self._proc, self._fd, self._bufsize, self._closefd = sim, proc, fd, bufsize, closefd
        self.name = name
        self.mode = mode
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self._buf = bytearray()
        self._closed = False
        proc.files.add(self)
        proc.fds.discard(fd)

    def _drop(self):
        """The process died: its buffer is lost."""
        if not self._closed:
            self._closed = True
            self._buf.clear()
            if self._closefd:
                try:
                    O["os.close"](self._fd)
                except OSError:
                    pass
        self._proc.files.discard(self)

    @property
    def closed(self):
        return self._closed

    def _chk(self):
        if self._closed:
            if self._proc.dead:
                raise SimCrash()
            raise ValueError("I/O operation on closed file.")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        self._chk()
        return self._fd

    def isatty(self):
        return False

    def _push(self):
        while self._buf:
            d = self._sim.op("write", self.name, mutating=True, partial=True)
            chunk = bytes(self._buf)
            if d is not None:
                k = int(len(chunk) * d[1])
                if k:
                    O["os.write"](self._fd, chunk[:k])
                    self._sim.wrote(self._fd)
                    self._sim.run.probe("torn-writes")
                    del self._buf[:k]
                self._sim.after_partial(d[0])
            k = O["os.write"](self._fd, chunk)
            del self._buf[:k]
            self._sim.wrote(self._fd)

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        b = memoryview(b).cast("B") if not isinstance(b, (bytes, bytearray)) else b
        self._buf += b
        if len(self._buf) >= self._bufsize:
            self._push()
        return len(b)

    def _read(self, n):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        self._push()
        self._sim.op("read", self.name)
        out = bytearray()
        while n is None or n < 0 or len(out) < n:
            want = 1 << 20 if (n is None or n < 0) else n - len(out)
            d = O["os.read"](self._fd, want)
            if not d:
                break
            out += d
        return bytes(out)

    def read(self, n=-1):
        return self._read(n)

    read1 = read

    def peek(self, n=0):
        pos = self.tell()
        d = self._read(max(n, 1))
        self.seek(pos)
        return d

    def readinto(self, b):
        m = memoryview(b).cast("B")
        d = self._read(len(m))
        m[:len(d)] = d
        return len(d)

    readinto1 = readinto

    def readline(self, size=-1):
        self._chk()
        out = bytearray()
        while size < 0 or len(out) < size:
            pos = self.tell()
            d = self._read(4096)
            if not d:
                break
            k = d.find(b"\n")
            d = d[:k + 1] if k >= 0 else d
            if size >= 0:
                d = d[:size - len(out)]
            out += d
            self.seek(pos + len(d))
            if out.endswith(b"\n"):
                break
        return bytes(out)

    def seek(self, off, whence=0):
        self._chk()
        self._push()
        return os.lseek(self._fd, off, whence)

    def tell(self):
        self._chk()
        return os.lseek(self._fd, 0, 1) + len(self._buf)

    def truncate(self, size=None):
        self._chk()
        self._push()
        self._sim.op("truncate", self.name, mutating=True)
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        self._sim.wrote(self._fd)
        return size

    def flush(self):
        if self._closed:
            return
        if self._proc.dead:
            raise SimCrash()
        self._push()

    def close(self):
        if self._closed:
            return
        try:
            if cur() is self._proc and not self._proc.dead:
                self._push()
                if self._w:
                    self._sim.op("close", self.name)
        finally:
            self._drop()

    def __del__(self):
        try:
            if not self._closed:
                if self._w and self._buf and not self._proc.dead:
                    try:
                        O["os.write"](self._fd, bytes(self._buf))  # the interpreter flushes at deallocation
                        self._sim.wrote(self._fd)
                    except OSError:
                        pass
                self._drop()
        except Exception:
            pass


class _GFile:
    """tensorflow.io.gfile.GFile on a local disk: a file opened for writing is created by the first write."""

    def __init__(self, name, mode="r"):
        self.name, self.mode, self.f = name, mode, None
        if "w" not in mode and "a" not in mode:
            self.f = sim_open(name, mode)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if self.f is None:
            self.f = sim_open(self.name, self.mode)
        return getattr(self.f, k)

    def write(self, b):
        if self.f is None:
            self.f = sim_open(self.name, self.mode)
        self.f.write(b)

    def close(self):
        if self.f is not None:
            self.f.close()

    def flush(self):
        if self.f is not None:
            self.f.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)


def _gfile_rename(a, b, overwrite=False):
    if not overwrite and os.path.exists(b):
        raise FileExistsError(errno.EEXIST, "AlreadyExistsError", b)
    os.rename(a, b)


def _gfile():
    g = types.SimpleNamespace()
    g.exists = lambda p: os.path.exists(p)
    g.isdir = lambda p: os.path.isdir(p)
    g.makedirs = lambda p: os.makedirs(p, exist_ok=True)
    g.remove = lambda p: os.remove(p)
    g.listdir = lambda p: os.listdir(p)
    g.GFile = _GFile
    g.rename = _gfile_rename
    return g


GFILE = _gfile()


def _inside(path):
    p = os.path.abspath(os.fspath(path))
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p == ROOT or p.startswith(ROOT + os.sep)


def _guard(path, what):
    """Nothing a simulated process does may change anything outside the scratch directory."""
    if not _inside(path):
        SIM.flag("escaped", "%s of %s, outside the data directory" % (what, os.fspath(path)))


def _mode_flags(mode):
    plus = "+" in mode
    if "r" in mode:
        fl = os.O_RDWR if plus else os.O_RDONLY
    else:
        fl = os.O_RDWR if plus else os.O_WRONLY
        fl |= os.O_CREAT
        if "w" in mode:
            fl |= os.O_TRUNC
        elif "x" in mode:
            fl |= os.O_EXCL
        elif "a" in mode:
            fl |= os.O_APPEND
    return fl | os.O_CLOEXEC


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = cur()
    if p is None or SIM is None:
        return O["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if p.dead:
        raise SimCrash()
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        if file not in p.fds:
            return O["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, name = file, file
    else:
        name = os.fspath(file)
        if not _inside(name):
            if not writing or os.fsdecode(name).startswith("/dev/"):
                return O["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            _guard(name, "writing")
        if opener is not None:
            fd = opener(name, _mode_flags(mode))
        else:
            SIM.op("open-w" if writing else "open", name, mutating=writing)
            fd = O["os.open"](name, _mode_flags(mode), 0o666)
            _opened(fd, _mode_flags(mode))
    bin_mode = mode.replace("t", "").replace("b", "")
    f = SimFile(SIM, p, fd, name, bin_mode + "b", 0 if buffering == 0 else 8192, closefd)
    if "b" in mode:
        return f
    return io.TextIOWrapper(f, encoding or "utf-8", errors, newline)


def _opened(fd, flags):
    st = os.fstat(fd)
    if flags & os.O_TRUNC or (flags & os.O_CREAT and st.st_size == 0):
        SIM.synced[st.st_ino] = 0
        SIM.dirty.discard(st.st_ino)  # the number may be that of a removed file


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = cur()
    if p is None or SIM is None:
        return O["os.open"](path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
    if p.dead:
        raise SimCrash()
    full = path if dir_fd is None else os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), path)
    if not _inside(full):
        if not writing:
            return O["os.open"](path, flags, mode, dir_fd=dir_fd)
        _guard(full, "writing")
    SIM.op("open-w" if writing else "open", full, mutating=bool(writing))
    fd = O["os.open"](path, flags, mode, dir_fd=dir_fd)
    p.fds.add(fd)
    _opened(fd, flags)
    return fd


def _os_close(fd):
    p = cur()
    if p is not None:
        if p.dead:
            raise SimCrash()
        p.fds.discard(fd)
    return O["os.close"](fd)


def _os_write(fd, data):
    p = cur()
    if p is None or fd not in p.fds:
        return O["os.write"](fd, data)
    d = SIM.op("write", fd, mutating=True, partial=True)
    data = bytes(data)
    if d is not None:
        k = int(len(data) * d[1])
        if k:
            O["os.write"](fd, data[:k])
            SIM.wrote(fd)
        SIM.after_partial(d[0])
    k = O["os.write"](fd, data)
    SIM.wrote(fd)
    return k


def _wrap_path(name, kind, mutating, n_paths=1, fallible=True):
    orig = O["os." + name]

    def f(*a, **k):
        p = cur()
        if p is None or SIM is None:
            return orig(*a, **k)
        if p.dead:
            raise SimCrash()
        paths = [x for x in a[:n_paths] if not isinstance(x, int)]
        fd = k.get("dir_fd")
        if fd is not None:
            paths = [os.path.join(os.readlink("/proc/self/fd/%d" % fd), x) for x in paths]
        if mutating:
            for x in paths:
                _guard(x, kind)
        if paths and _inside(paths[0]):
            if kind == "mkdir":
                try:
                    O["os.stat"](paths[0])
                    SIM.op(kind, paths[0])
                    raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), paths[0])
                except FileNotFoundError:
                    pass
            SIM.op(kind, paths[0], mutating=mutating, fallible=fallible)
        return orig(*a, **k)

    f.__name__ = name
    return f


def _fsync(fd):
    p = cur()
    if p is None or SIM is None:
        return O["os.fsync"](fd)
    n = fd if isinstance(fd, int) else fd.fileno()
    SIM.op("fsync", None, mutating=False)
    st = os.fstat(n)
    SIM.synced[st.st_ino] = st.st_size
    SIM.dirty.discard(st.st_ino)


def _flock(fd, op):
    p = cur()
    if p is None or SIM is None or op & fcntl.LOCK_UN:
        return O["fcntl.flock"](fd, op)
    for _ in range(MAX_OPS):
        SIM.op("lock", None, fallible=False)
        try:
            return O["fcntl.flock"](fd, op | fcntl.LOCK_NB)
        except OSError as e:
            if e.errno not in (errno.EWOULDBLOCK, errno.EAGAIN) or op & fcntl.LOCK_NB:
                raise
    SIM.flag("deadlock", "lock never granted")


def _sleep(t):
    p = cur()
    if p is None or SIM is None:
        return O["time.sleep"](t)
    SIM.run.simtime += t
    SIM.op("sleep", None, fallible=False)


# -------------------------------------------------------------------- network
class Response(io.RawIOBase):
    """HTTP response of the simulated network."""

    def __init__(self, sim, url, body, length, fail_at=None, exc=None):
        self.sim, self.url, self.body, self.pos = sim, url, body, 0
        self.fail_at, self.exc = fail_at, exc
        self.headers = email.message.Message()
        if length is not None:
            self.headers["Content-Length"] = str(length)
        self.status = self.code = 200
        self.length = length
        self.msg = "OK"
        self.reason = "OK"

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def geturl(self):
        return self.url

    def getcode(self):
        return 200

    def readable(self):
        return True

    def _take(self, n):
        if cur() is not None:
            self.sim.op("recv", None, fallible=False)
        self.sim.run.simtime += 0.01
        end = len(self.body) if n is None or n < 0 else min(len(self.body), self.pos + n)
        if self.fail_at is not None and end > self.fail_at:
            if self.pos >= self.fail_at or n is None or n < 0:
                raise self.exc
            end = self.fail_at
        d = self.body[self.pos:end]
        self.pos = end
        return d

    def read(self, n=-1):
        return self._take(n)

    read1 = read

    def readall(self):
        return self._take(-1)

    def readinto(self, b):
        d = self._take(len(b))
        b[:len(d)] = d
        return len(d)


class Network:
    """Answers requests.  `script`: list of behaviours for the coming requests; afterwards it is well-behaved."""

    def __init__(self, sim, payloads):
        self.sim, self.payloads = sim, payloads  # basename of url -> bytes
        self.script = []
        self.requests = []
        self.blocksize = None
        self.damaged = 0

    def urlopen(self, url, data=None, timeout=None, **k):
        sim, run = self.sim, self.sim.run
        if not isinstance(url, str):
            url = url.full_url
        p = cur()
        sim.op("connect", None, fallible=False)
        run.simtime += 0.2
        if sim.net_forbidden:
            sim.flag("network", "request for %s although the dataset is cached" % url)
        self.requests.append(url)
        run.log("request", url)
        if len(self.requests) > 2000:
            sim.flag("unbounded", "more than 2000 requests")
        how = self.script.pop(0) if self.script else "ok"
        name = url.rsplit("/", 1)[-1]
        if name not in self.payloads:
            raise urllib.error.HTTPError(url, 404, "Not Found", None, None)
        body = self.payloads[name]
        if how == "ok":
            return Response(sim, url, body, len(body))
        p.faulted += 1
        self.damaged += 1
        run.fault("net:" + how)
        rnd = sim.rnd
        if how == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"))
        if how == "http":
            raise urllib.error.HTTPError(url, 503, "Service Unavailable", None, None)
        if how == "timeout":
            run.simtime += 60
            raise urllib.error.URLError(socket.timeout("timed out"))
        at = int(len(body) * rnd.random())
        if how == "reset":
            return Response(sim, url, body, len(body), at, ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))
        if how == "short":  # connection closed early, length known
            return Response(sim, url, body[:at], len(body))
        if how == "short-silent":  # connection closed early, length unknown
            return Response(sim, url, body[:at], None)
        if how == "flip":
            b = bytearray(body)
            for _ in range(rnd.choice([1, 1, 3])):
                b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
            return Response(sim, url, bytes(b), len(b))
        if how == "empty":
            return Response(sim, url, b"", 0)
        if how == "html":
            b = b"<html><body>Service moved, please log in</body></html>"
            return Response(sim, url, b, len(b))
        if how == "other":  # stale proxy: another file
            other = [q for q in sorted(self.payloads) if q != name]
            b = self.payloads[rnd.choice(other)]
            return Response(sim, url, b, len(b))
        if how == "forged":  # well-formed file with other contents
            b = self.payloads["forged:" + name]
            return Response(sim, url, b, len(b))
        raise HarnessError(how)


def _urlopen(url, data=None, timeout=None, **k):
    p = cur()
    if p is None or SIM is None or SIM.net is None:
        raise urllib.error.URLError("no network in the simulator")
    if p.dead:
        raise SimCrash()
    return SIM.net.urlopen(url, data, timeout, **k)


class Md5:
    """hashlib.md5 whose digest of the synthetic payloads is the published digest of the real file."""

    digests = {}  # payload -> hex
    name = "md5"
    digest_size = 16
    block_size = 64

    def __init__(self, data=b"", *, usedforsecurity=True, string=b""):
        self.d = bytearray(data or string)

    def update(self, b):
        self.d += b

    def copy(self):
        return Md5(bytes(self.d))

    def hexdigest(self):
        h = Md5.digests.get(bytes(self.d))
        return h if h is not None else O["hashlib.md5"](bytes(self.d)).hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def _hashlib_new(name, data=b"", **k):
    if name.lower() == "md5" and cur() is not None:
        return Md5(data)
    return O["hashlib.new"](name, data, **k)


def _md5(data=b"", **k):
    if cur() is not None:
        return Md5(data)
    return O["hashlib.md5"](data, **k)


def _urandom(n):
    p = cur()
    if p is None or SIM is None:
        return O["os.urandom"](n)
    return bytes(SIM.rnd.getrandbits(8) for _ in range(n))


def _getpid():
    p = cur()
    return O["os.getpid"]() if p is None else p.pid


def install():
    global ROOT
    if O:
        return
    base = tempfile.mkdtemp(prefix="verif_fs_")
    ROOT = os.path.realpath(base)
    import atexit

    atexit.register(lambda: shutil.rmtree(base, ignore_errors=True))
    for n in ("open", "close", "write", "read", "mkdir", "rmdir", "remove", "unlink", "rename", "replace", "link", "symlink",
              "truncate", "fsync", "fdatasync", "stat", "lstat", "listdir", "scandir", "access", "urandom", "getpid", "walk", "utime", "chmod"):
        O["os." + n] = getattr(os, n)
    O["open"] = builtins.open
    O["hashlib.md5"], O["hashlib.new"] = hashlib.md5, hashlib.new
    O["time.sleep"] = time.sleep
    O["fcntl.flock"] = fcntl.flock
    builtins.open = sim_open
    io.open = sim_open
    tarfile.bltn_open = sim_open
    bz2._builtin_open = sim_open
    os.open, os.close, os.write, os.fsync, os.fdatasync = _os_open, _os_close, _os_write, _fsync, _fsync
    for n, kind, mut, k in (("mkdir", "mkdir", True, 1), ("rmdir", "rmdir", True, 1), ("remove", "remove", True, 1), ("unlink", "remove", True, 1),
                            ("rename", "rename", True, 2), ("replace", "rename", True, 2), ("link", "link", True, 2), ("symlink", "link", True, 2),
                            ("truncate", "truncate", True, 1), ("utime", "utime", True, 1), ("chmod", "chmod", True, 1)):
        setattr(os, n, _wrap_path(n, kind, mut, k))
    for n in ("stat", "lstat", "listdir", "scandir", "access"):
        setattr(os, n, _wrap_path(n, "look", False, 1, fallible=False))
    os.urandom, os.getpid = _urandom, _getpid
    time.sleep = _sleep
    fcntl.flock = _flock
    hashlib.md5, hashlib.new = _md5, _hashlib_new
    urllib.request.urlopen = _urlopen


def end():
    """After a run (also an aborted one)."""
    global SIM
    if SIM is not None:
        for p in SIM.procs:
            if not p.dead:
                p.die()
        _tls.proc = None
        SIM = None
