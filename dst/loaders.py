"""Synthetic datasets as the servers publish them, and the reference results of the loaders."""
import bz2
import gzip
import io
import os
import random
import tarfile

import numpy as np
from scipy import sparse

from dst import simfs
from dst.core import Violation

ARCHIVES = ["madelon", "rcv1", "gisette", "covtype", "news20"]
TRAIN_ONLY = ["covtype", "news20"]
CHECKSUM = ["url", "kdd10", "kdd12", "criteo"]
MD5 = {"url": "83673b8f4224c81968af2fb6022ee487", "kdd10": "bc5b630fef6989c2f201039fef497e14",
       "kdd12": "c6fc57735c3cf687dd182d60a7b51cda", "criteo": "d852b491d1b3afa26c1e7b49594ffc3e"}
FILE = {"url": "url_combined.bz2", "kdd10": "kddb.bz2", "kdd12": "kdd12.bz2", "criteo": "criteo.kaggle2014.svm.tar.gz"}
PAYLOADS = {}
EXPECT = {}  # (dataset, subset) -> (dense X, y)
VARIANTS = {}  # archive -> the same members in different orders


def _matrix(rnd, n, p, dens):
    X = np.zeros((n, p))
    for i in range(n):
        for j in range(p):
            if rnd.random() < dens:
                X[i, j] = round(rnd.gauss(0, 1), 4) or 1.0
    X[0, 0] = 1.5
    X[n - 1, p - 1] = 2.5
    return X


def _npy(a):
    f = io.BytesIO()
    np.save(f, a)
    return f.getvalue()


def _tar(members, gz_level=1):
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as t:
        for name, data in members:
            ti = tarfile.TarInfo(name)
            if data is None:
                ti.type = tarfile.DIRTYPE
                ti.mode = 0o755
                t.addfile(ti)
            else:
                ti.size = len(data)
                t.addfile(ti, io.BytesIO(data))
    return gzip.compress(raw.getvalue(), gz_level, mtime=0)


def _svm(X, y):
    lines = []
    for i in range(X.shape[0]):
        nz = np.nonzero(X[i])[0]
        lines.append("%g %s" % (y[i], " ".join("%d:%.10g" % (j + 1, X[i, j]) for j in nz)))
    return ("\n".join(lines) + "\n").encode()


def build():
    """Everything is generated from a fixed seed: it is the published data."""
    if PAYLOADS:
        return
    rnd = random.Random(20240607)
    sizes = [(50, 17), (19, 58), (37, 37), (53, 20), (54, 21)]
    for k, ds in enumerate(ARCHIVES):
        parts = {}
        for sub, n in zip(("train", "test"), sizes[k]):
            if sub == "test" and ds in TRAIN_ONLY:
                continue
            X = _matrix(rnd, n, 60 - k, 0.4)
            y = np.array([float(rnd.random() < 0.5) for _ in range(n)])
            y[:2] = [0.0, 1.0]
            parts[sub] = (X, y)
            EXPECT[ds, sub] = (X, y)
        if "test" in parts:
            EXPECT[ds, "full"] = tuple(np.concatenate([parts["train"][q], parts["test"][q]]) for q in (0, 1))
        members = [(ds, None)] if k % 2 == 0 else []
        for sub in parts:
            X, y = parts[sub]
            C = sparse.csr_matrix(X)
            members += [("%s/X_%s.data.npy" % (ds, sub), _npy(C.data)), ("%s/X_%s.indices.npy" % (ds, sub), _npy(C.indices)),
                        ("%s/X_%s.indptr.npy" % (ds, sub), _npy(C.indptr)), ("%s/y_%s.npy" % (ds, sub), _npy(y))]
        if k == 1:
            members.reverse()
        PAYLOADS[ds + ".tar.gz"] = _tar(members)
        VARIANTS[ds + ".tar.gz"] = [PAYLOADS[ds + ".tar.gz"]]
        for q in range(4):
            rnd.shuffle(members)
            more = [("%s/README.txt" % ds, b"published " * 800)] if q == 0 else []
            VARIANTS[ds + ".tar.gz"].append(_tar(members + more))
    for k, ds in enumerate(CHECKSUM):
        for forged in (False, True):
            n, p = 45 + k, 30 + 2 * k
            X = _matrix(rnd, n, p, 0.5)
            y = np.array([float(rnd.random() < 0.5) for _ in range(n)])
            y[:2] = [0.0, 1.0]
            raw = y if ds in ("kdd10", "criteo", "kdd12") else 2 * y - 1
            if ds == "criteo":
                Xt = _matrix(rnd, 9, p, 0.5)
                body = _tar([("criteo.kaggle2014.svm", None), ("criteo.kaggle2014.svm/criteo.kaggle2014.test.svm", _svm(Xt, y[:9])),
                             ("criteo.kaggle2014.svm/criteo.kaggle2014.train.svm", _svm(X, raw))])
            else:
                body = bz2.compress(_svm(X, raw))
            if forged:
                PAYLOADS["forged:" + FILE[ds]] = body
            else:
                PAYLOADS[FILE[ds]] = body
                EXPECT[ds, None] = (X, y)
                simfs.Md5.digests[body] = MD5[ds]
                if ds == "kdd12":
                    # .. both conventions for the labels of two classes ..
                    other = bz2.compress(_svm(X, 2 * y - 1))
                    simfs.Md5.digests[other] = MD5[ds]
                    VARIANTS[FILE[ds]] = [body, other]


def network(run, sim):
    """The servers of this run: archives with their members in a drawn order."""
    pl = dict(PAYLOADS)
    for k in sorted(VARIANTS):
        pl[k] = run.src.choice(VARIANTS[k])
    sim.net = simfs.Network(sim, pl)
    # .. where and through which file layer ..
    sim.tf = run.src.chance(12)
    if sim.tf:
        run.probe("tensorflow-file-layer")
    if run.src.chance(25):
        sim.data = os.path.join(simfs.ROOT, run.src.choice(["elsewhere", "deep/er"]))
        run.probe("explicit-data-dir")


def loader(ds, subset=None):
    """The call a simulated process makes."""
    def f(mod):
        fn = getattr(mod, "load_" + ds)
        sim = simfs.SIM
        kw = {}
        if sim.data != sim.env_data and ds in ARCHIVES:
            kw["data_dir"] = sim.data
        if subset is None:
            return fn(**kw)
        return fn(subset, **kw)

    return f


def subsets(ds):
    return [None] if ds in CHECKSUM + TRAIN_ONLY else ["train", "test", "full"]


def mismatch(ds, subset, res):
    """None, or why the returned data is not the published data."""
    want = EXPECT[ds, subset if ds in CHECKSUM or subset is not None else "train"]
    if not isinstance(res, tuple) or len(res) != 2:
        return "returned %r" % (type(res),)
    X, y = res
    if not sparse.issparse(X) or X.format != "csr":
        return "matrix is %r" % (type(X),)
    if X.shape != want[0].shape:
        return "shape %s, published %s" % (X.shape, want[0].shape)
    D = X.toarray()
    if not np.array_equal(D, want[0]):
        bad = np.argwhere(D != want[0])
        return "%d entries differ, first at %s" % (len(bad), bad[0].tolist())
    y = np.asarray(y)
    if y.shape != want[1].shape or not np.array_equal(y.astype(float), want[1]):
        return "labels differ"
    return None


def check_result(p, ds, subset, ctx, mayfail):
    """Judge one finished call of a live process."""
    if p.dead:
        return "dead"
    if p.error is not None:
        if mayfail:
            return "failed"
        raise Violation("failed-without-fault", "%s(%s) %s raised %s: %s" % (ds, subset, ctx, type(p.error).__name__, str(p.error)[:300]))
    why = mismatch(ds, subset, p.result)
    if why is not None:
        raise Violation("wrong-data", "%s(%s) %s: %s" % (ds, subset, ctx, why))
    if p.sim.rnd.random() < 0.3:
        # .. the result is the caller's: what he does to it is his business alone ..
        X, y = p.result
        try:
            X.data *= -3
            y[:] = 1 - y
            p.sim.run.probe("result-overwritten")
        except ValueError:
            pass
    return "ok"


NET = ["refused", "http", "timeout", "reset", "short", "short-silent", "html", "empty"]
CORRUPT = ["flip", "short-silent", "html", "empty", "other", "forged"]
KINDS = ["rename", "write", "fsync", "open-w", "close", "recv", "read", "mkdir", "look", "remove", "open", "connect"]


def plan_fault(run, p, kinds=("crash", "interrupt", "EIO", "ENOSPC", "EACCES", "EMFILE")):
    """One fault of a process, at an operation chosen by count or by kind."""
    src = run.src
    f = src.choice(list(kinds))
    if src.chance(50):
        p.plan[src.draw(src.choice([20, 60, 160]))] = f
    else:
        p.kind_plan.append([src.choice(KINDS), src.draw(src.choice([3, 8, 12])), f])


def clear_plan(p):
    p.plan.clear()
    p.kind_plan.clear()
