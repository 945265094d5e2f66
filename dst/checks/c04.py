"""C04: concurrent loads of one dataset (or of two), interleaved at every file and network operation, with kills."""
from dst import loaders as ld
from dst import simfs
from dst.checks import c01
from dst.core import Violation

RUNS = {"quick": 10000, "thorough": 150000}
RULE = ("a run draws a dataset (or two), a cache state (empty, or left by crashed loads) and two or three processes loading from it at the same time; the scheduler decides after every operation which "
        "process goes on, some processes are killed or meet network or disk failures; non-trivial: at least one switch or fault")
REAL = c01.REAL + ["sklearn svmlight parser"]
STUB = c01.STUB + ["hashlib.md5 (maps the genuine synthetic file to the published checksum)", "process scheduler (one operation at a time, decided by the seed)"]
ASSUMPTIONS = ["processes interleave at file, lock and network operations; computation between them touches nothing shared"]
LEVEL_NOTE = ("seeded search over interleavings and kills of simulated processes running the real loaders on one directory; no completeness claim")
setup, cleanup = c01.setup, c01.cleanup


def run(run):
    src = run.src
    sim = simfs.Sim(run)
    ld.network(run, sim)
    datasets = [src.choice(ld.ARCHIVES + ld.CHECKSUM)]
    if src.chance(25):
        # .. two datasets in one directory, often of the same kind ..
        same = ld.ARCHIVES if datasets[0] in ld.ARCHIVES else ld.CHECKSUM
        datasets.append(src.choice([d for d in (same if src.chance(70) else ld.ARCHIVES + ld.CHECKSUM) if d not in datasets]))
    run.cfg = dict(datasets=datasets)
    run.sched(datasets)
    if src.chance(35):
        c01.history(run, sim, datasets, ld.NET + (ld.CORRUPT if all(d in ld.CHECKSUM for d in datasets) else []))
    for rnd in range(src.weighted([(1, 4), (2, 1)])):
        sim.switch = src.choice([100, 50, 15, 4])
        procs, fns, subs = [], [], []
        for k in range(src.weighted([(2, 3), (3, 1)])):
            p = simfs.Proc(sim, "q%d.%d" % (rnd, k))
            ds = src.choice(datasets)
            sub = src.choice(ld.subsets(ds))
            if src.chance(25):
                ld.plan_fault(run, p, ("crash", "crash", "interrupt", "EIO", "ENOSPC"))
            procs.append(p)
            subs.append((ds, sub))
            fns.append(ld.loader(ds, sub))
        if src.chance(20):
            # .. threads of one process ..
            run.probe("threads-of-one-process")
            for p in procs[1:]:
                p.module = procs[0].module = procs[0].module or sim.fresh_module()
                p.pid = procs[0].pid
        sim.net.script = [src.choice(ld.NET) if src.chance(8) else "ok" for _ in range(4)]
        sim.concurrently(procs, fns)
        sim.net.script = []
        good = []
        for p, (ds, sub) in zip(procs, subs):
            got = ld.check_result(p, ds, sub, "loading next to %d others" % (len(procs) - 1), p.faulted > 0)
            run.probe("concurrent-" + got)
            if got == "ok":
                good.append((ds, sub))
        # .. what they leave behind serves later loads ..
        if good:
            sim.net_forbidden = True
            for ds, sub in good:
                p = simfs.Proc(sim, "later")
                sim.call(p, ld.loader(ds, sub))
                ld.check_result(p, ds, sub, "after concurrent loads", False)
            sim.net_forbidden = False
    for ds in datasets:
        for sub in ld.subsets(ds):
            p = simfs.Proc(sim, "final")
            sim.call(p, ld.loader(ds, sub))
            ld.check_result(p, ds, sub, "after everything", False)
    for k, v in sim.opkinds.items():
        run.counts["op:" + k] += v
