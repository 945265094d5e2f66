"""C03: a complete cache is served offline and unchanged."""
from dst import loaders as ld
from dst import simfs
from dst.checks import c01
from dst.core import Violation

RUNS = {"quick": 20000, "thorough": 200000}
RULE = ("a run fills the cache of one or two of the nine datasets (possibly after crashes and failures), then loads them again from several processes, in any order of subsets, "
        "alone or interleaved, with the network forbidden and sometimes a read-only disk; non-trivial: an interleaving switch, a fault before the cache was complete, or a read-only disk")
REAL = c01.REAL + ["sklearn svmlight parser"]
STUB = c01.STUB + ["hashlib.md5 (maps the genuine synthetic file to the published checksum)"]
ASSUMPTIONS = ["unchanged cache: same names, inodes, modification times and contents", "a subset counts as cached if it, or the full or test subset of the same archive, was loaded successfully"]
LEVEL_NOTE = ("seeded search over load sequences and interleavings on a cache filled under faults, with every network access and every change of the cache reported; no completeness claim")
setup, cleanup = c01.setup, c01.cleanup


def run(run):
    src = run.src
    sim = simfs.Sim(run)
    ld.network(run, sim)
    datasets = [src.choice(ld.ARCHIVES + ld.CHECKSUM)]
    if src.chance(30):
        datasets.append(src.choice(ld.ARCHIVES + ld.CHECKSUM))
    run.cfg = dict(datasets=datasets)
    run.sched(datasets)
    if src.chance(50):
        c01.history(run, sim, datasets, ld.NET)
    ok = {}
    for ds in datasets:
        p = simfs.Proc(sim, "fill")
        sub = src.choice(ld.subsets(ds))
        sim.call(p, ld.loader(ds, sub))
        ld.check_result(p, ds, sub, "when filling the cache", False)
        ok[ds] = [sub] if sub in (None, "train") else ["train", "test", "full"]
    # .. complete: nothing below may need the network or change a file ..
    before = sim.snapshot()
    sim.net_forbidden = True
    sim.read_only = src.chance(30)
    if sim.read_only:
        run.fault("read-only-disk")
    n = src.int(1, 4)
    if src.chance(35):
        sim.switch = src.choice([100, 30, 5])
        procs, fns, what = [], [], []
        for k in range(2):
            ds = src.choice(datasets)
            sub = src.choice(ok[ds])
            procs.append(simfs.Proc(sim, "r%d" % k))
            fns.append(ld.loader(ds, sub))
            what.append((ds, sub))
        sim.concurrently(procs, fns)
        for p, (ds, sub) in zip(procs, what):
            ld.check_result(p, ds, sub, "from the cache, two at a time", False)
    p = simfs.Proc(sim, "reader")
    for k in range(n):
        ds = src.choice(datasets)
        if src.chance(30):
            p = simfs.Proc(sim, "reader%d" % k)
        if len(ok[ds]) == 3 and src.chance(20):
            bad = src.choice(["validation", "Train", "", "all", 0])
            sim.call(p, ld.loader(ds, bad))
            if not isinstance(p.error, ValueError):
                raise Violation("subset-accepted", "subset %r of %s: %r" % (bad, ds, p.error if p.error is not None else "returned data"))
            run.probe("unknown-subset")
        else:
            sub = src.choice(ok[ds])
            sim.call(p, ld.loader(ds, sub))
            ld.check_result(p, ds, sub, "from the cache", False)
            run.probe("cached-loads")
    after = sim.snapshot()
    if after != before:
        diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        raise Violation("cache-changed", "served from the cache, but changed: %s" % diff[:6])
    for k, v in sim.opkinds.items():
        run.counts["op:" + k] += v
