"""C02: checksum-guarded loaders under corruption, truncation, crashes and disk errors."""
from dst import loaders as ld
from dst import simfs
from dst.checks import c01
from dst.core import Violation

RUNS = {"quick": 20000, "thorough": 200000}
RULE = ("a run draws one or two of url, kdd10, kdd12, criteo and a history of processes that load them with md5 checking on while downloads are corrupted (bit flips, silent truncation, "
        "other or forged files), connections fail, and crashes, interrupts, disk errors and power losses strike; non-trivial: at least one fault fired")
REAL = ["copt.datasets (one instance per simulated process)", "urllib.request.urlretrieve", "sklearn svmlight parser", "bz2, tarfile, gzip, numpy.save/load", "a real scratch directory"]
STUB = c01.STUB + ["hashlib.md5 (maps the genuine synthetic file to the published checksum, honest for everything else)"]
ASSUMPTIONS = ["disk: renames and file creations are ordered and durable, data is durable only after fsync", "files at rest are not corrupted by the disk",
               "every call in the history has md5 checking on"]
LEVEL_NOTE = ("seeded search over corruption, crash and restart histories of the real loaders on a simulated disk and network; every call judged against the published data; no completeness claim")
setup, cleanup = c01.setup, c01.cleanup


def run(run):
    src = run.src
    sim = simfs.Sim(run)
    ld.network(run, sim)
    datasets = [src.choice(ld.CHECKSUM)]
    if src.chance(25):
        datasets.append(src.choice(ld.CHECKSUM))
    run.cfg = dict(datasets=datasets)
    run.sched(datasets)
    if src.chance(40):
        # .. corruption alone is repaired within the call ..
        ds = datasets[0]
        p = simfs.Proc(sim, "c0")
        k = src.int(1, 2)
        sim.net.script = [src.choice(ld.CORRUPT) for _ in range(k)]
        sim.call(p, ld.loader(ds))
        ld.check_result(p, ds, None, "with %d corrupted download(s)" % k, False)
        if len(sim.net.requests) != k + 1:
            raise Violation("no-refetch", "%d corrupted downloads, %d requests" % (k, len(sim.net.requests)))
        if len(set(sim.net.requests)) != 1:
            raise Violation("other-address", "requests for %s" % sorted(set(sim.net.requests)))
        run.probe("repaired-in-call")
    c01.history(run, sim, datasets, ld.CORRUPT * 2 + ld.NET, max_corrupt=src.choice([2, 3, 8]))
    for ds in datasets:
        for _ in range(2):
            p = simfs.Proc(sim, "final")
            sim.call(p, ld.loader(ds))
            ld.check_result(p, ds, None, "after the faults stopped", False)
    for k, v in sim.opkinds.items():
        run.counts["op:" + k] += v
