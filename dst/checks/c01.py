"""C01: archive loaders under crashes, interrupts, network failures, disk errors and power loss."""
from dst import loaders as ld
from dst import simfs

RUNS = {"quick": 20000, "thorough": 250000}
RULE = ("a run draws one or two archive datasets and a history of processes that load them (several calls each, any subset) while crashes, KeyboardInterrupt, I/O errors, "
        "full disk, network failures and power losses strike at drawn operations; non-trivial: at least one fault fired")
REAL = ["copt.datasets (one instance per simulated process)", "urllib.request.urlretrieve", "tarfile, gzip, numpy.load", "a real scratch directory"]
STUB = ["urllib.request.urlopen (simulated servers)", "open/os file calls (intercepted, then performed on the scratch directory)", "process (a call that can die)", "published archives (small synthetic ones)"]
ASSUMPTIONS = ["disk: renames and file creations are ordered and durable, data is durable only after fsync; a torn write leaves a prefix",
               "silent corruption of archive downloads that keep their length is excluded (archives carry no checksum)", "TensorFlow is not installed: its file layer is a stand-in on the same simulated disk (12 % of the runs, no power losses there)"]
LEVEL_NOTE = ("seeded search over crash, fault and restart histories of the real loader on a simulated disk and network; every call judged against the published data; no completeness claim")


def setup():
    simfs.install()
    ld.build()


def cleanup():
    simfs.end()


def history(run, sim, datasets, script_kinds, power=True, max_corrupt=2):
    """Processes that load under faults.  Every call that returns is judged."""
    src = run.src
    lives = src.weighted([(1, 4), (2, 4), (3, 2), (0, 1)])
    for k in range(lives):
        p = simfs.Proc(sim, "p%d" % k)
        for c in range(src.weighted([(1, 3), (2, 2), (3, 1)])):
            ds = src.choice(datasets)
            sub = src.choice(ld.subsets(ds))
            ld.clear_plan(p)
            sim.net.script = []
            for _ in range(src.weighted([(1, 6), (2, 2), (0, 1)])):
                if src.chance(35):
                    how = src.choice(script_kinds)
                    sim.net.script += ["ok"] * src.weighted([(0, 6), (1, 1)]) + [how] * src.int(1, max_corrupt)
                else:
                    ld.plan_fault(run, p)
            before = sim.net.damaged
            run.log("call", k, ds, sub)
            sim.call(p, ld.loader(ds, sub))
            run.probe("calls")
            got = ld.check_result(p, ds, sub, "call %d of process %d" % (c, k), p.faulted > 0 or sim.net.damaged > before)
            run.log("outcome", got)
            run.probe("call-" + got)
            if p.dead:
                if power and src.chance(35):
                    sim.power_loss()
                break
            if got == "failed" and src.chance(40):
                break
    sim.net.script = []


def run(run):
    src = run.src
    sim = simfs.Sim(run)
    ld.network(run, sim)
    datasets = [src.choice(ld.ARCHIVES)]
    if src.chance(25):
        datasets.append(src.choice(ld.ARCHIVES))
    run.cfg = dict(datasets=datasets)
    run.sched(datasets)
    history(run, sim, datasets, ld.NET)
    # .. the faults have stopped ..
    for ds in datasets:
        subs = list(ld.subsets(ds))
        first = subs.pop(src.draw(len(subs)))
        for sub in [first] + subs:
            p = simfs.Proc(sim, "final")
            sim.call(p, ld.loader(ds, sub))
            ld.check_result(p, ds, sub, "after the faults stopped", False)
    for k, v in sim.opkinds.items():
        run.counts["op:" + k] += v
