"""Runs a check over many seeds in fresh worker processes, shrinks, replays and reports.

    python -m dst.runner C05              run the check (VERIF_SEED, VERIF_TIER)
    python -m dst.runner --worker C05 ... internal
    python -m dst.runner --replay FILE    replay a failing run
    python -m dst.runner --determinism C05 [N]   run N seeds twice in different processes and diff the logs
"""
import collections
import gc
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(HERE, "dst")]
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from dst import core  # noqa: E402

PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "replays"))
KNOWN = os.path.join(HERE, "known_findings.json")
RUN_WALL = 120  # seconds; a run that takes longer is a harness error, never a pass
BATCH_WALL = float(os.environ.get("VERIF_WALL", "780"))


def load_check(pid):
    return importlib.import_module("dst.checks." + pid.lower())


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def execute(check, src):
    """Run one simulation.  Returns (run, kind, violation-or-text): kind in ok|violation|harness."""
    run = core.Run(src)
    gc.collect()  # objects in cycles die here and only here, not at a moment that depends on the process's past
    gc.freeze()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_WALL)
    try:
        check.run(run)
        return run, "ok", None
    except core.Violation as v:
        run.log("VIOLATION", v.cls)
        return run, "violation", v
    except Timeout:
        return run, "harness", "run exceeded %d s of wall time" % RUN_WALL
    except core.SimCrash:
        return run, "harness", "SimCrash escaped\n" + traceback.format_exc()
    except BaseException as e:
        if isinstance(e, Exception) and not isinstance(e, core.HarnessError) and from_copt(e):
            run.log("VIOLATION", "unexpected-exception")
            return run, "violation", core.Violation("unexpected-exception", "%s: %s" % (type(e).__name__, e))
        return run, "harness", traceback.format_exc()
    finally:
        signal.alarm(0)
        core.GUARD.stop()
        fin = getattr(check, "cleanup", None)
        if fin is not None:
            fin()


def from_copt(e):
    """The exception came out of a copt function that the harness itself called with valid arguments (a penalty's factory, an operator)."""
    root = os.path.join(os.path.realpath(core.REPO), "copt") + os.sep
    files = [os.path.realpath(f.f_code.co_filename) for f, _ in traceback.walk_tb(e.__traceback__)]
    if not any(f.startswith(root) for f in files):
        return False
    # .. and was not raised by the harness beneath it (a callback, a simulated system call) ..
    return not files[-1].startswith(HERE + os.sep)


def setup_worker(check):
    sys.path.insert(0, core.REPO)
    sys.setrecursionlimit(3000)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    su = getattr(check, "setup", None)
    if su is not None:
        su()
    gc.disable()
    import copt

    if os.path.dirname(os.path.abspath(copt.__file__)) != os.path.join(os.path.realpath(core.REPO), "copt"):
        raise core.HarnessError("copt imported from %s" % copt.__file__)


def seed_of(vseed, pid, idx):
    return core.derive_seed("seed", vseed, pid, idx)


def worker(argv):
    pid, vseed, out = argv[0], int(argv[1]), argv[2]
    with open(argv[3]) as f:
        idxs = json.load(f)
    deadline = float(argv[4])
    real = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # copt prints
    check = load_check(pid)
    setup_worker(check)
    with open(out, "w") as f:
        for i in idxs:
            if time.time() > deadline:
                f.write(json.dumps({"i": i, "kind": "deadline"}) + "\n")
                break
            t0 = time.perf_counter()
            run, kind, v = execute(check, core.Src(seed_of(vseed, pid, i)))
            rec = {
                "i": i, "kind": kind, "digest": run.digest(), "sched": run.sh.hexdigest()[:16],
                "faults": run.faults, "probes": run.probes, "simtime": run.simtime,
                "nontrivial": bool(run.nontrivial), "nev": run.nev, "counts": run.counts,
                "t": time.perf_counter() - t0,
            }
            if kind == "violation":
                rec.update(cls=v.cls, msg=v.msg[:2000], choices=run.src.out, cfg=_jsonable(run.cfg))
            elif kind == "harness":
                rec.update(err=v)
            elif getattr(check, "NONDETERMINISM_IS_VIOLATION", False):
                rec.update(choices=run.src.out)
                if i < 3:
                    rec.update(cfg=_jsonable(run.cfg), events=run.events[:12], nchoices=len(run.src.out))
            elif i < 3:
                rec.update(cfg=_jsonable(run.cfg), events=run.events[:12], nchoices=len(run.src.out))
            f.write(json.dumps(rec) + "\n")
            f.flush()
    os.close(real)


def _jsonable(o):
    return json.loads(json.dumps(o, default=repr))


def env_for(hashseed):
    e = dict(os.environ)
    e.update(
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed), PYTHONPATH="", MPLBACKEND="Agg",
    )
    e.pop("COPT_DATA_DIR", None)
    return e


def spawn(pid, vseed, idxs, out, deadline, hashseed):
    # .. in a file: the list can be longer than an argument may be ..
    todo = out + ".todo"
    with open(todo, "w") as f:
        json.dump(idxs, f)
    return subprocess.Popen(
        [PY, "-B", "-W", "ignore", os.path.abspath(__file__), "--worker", pid, str(vseed), out, todo, str(deadline)],
        env=env_for(hashseed), cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
    )


def run_batch(pid, vseed, idx_lists, deadline, tmp, tag, hashseeds):
    procs = []
    for k, idxs in enumerate(idx_lists):
        if not idxs:
            continue
        out = os.path.join(tmp, "%s_%d.jsonl" % (tag, k))
        procs.append((out, spawn(pid, vseed, idxs, out, deadline, hashseeds[k % len(hashseeds)])))
    recs, errs = [], []
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=max(5.0, deadline + RUN_WALL + 30 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            errs.append("worker killed after wall limit")
        if p.returncode != 0:
            errs.append("worker exit %s: %s" % (p.returncode, err.decode(errors="replace")[-3000:]))
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        errs.append("torn worker record")
    recs.sort(key=lambda r: r["i"])
    return recs, errs


def known_for(pid):
    try:
        with open(KNOWN) as f:
            allk = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in allk.get("findings", []) if k["property"] == pid]


def is_known(known, rec):
    for k in known:
        if k["class"] == rec["cls"] and k.get("contains", "") in rec["msg"]:
            return k
    return None


# ------------------------------------------------------------------ shrinking
def shrink(check, choices, cls, budget_s, max_runs=4000):
    """Delete and lower choices while the same violation class persists."""
    t_end = time.time() + budget_s
    runs = [0]

    def fails(c):
        if time.time() > t_end or runs[0] >= max_runs:
            return None
        runs[0] += 1
        run, kind, v = execute(check, core.Src(prefix=c))
        if kind == "violation" and v.cls == cls:
            return run.src.out
        return None

    def strip(c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        return c

    best = strip(choices)
    improved = True
    while improved and time.time() < t_end and runs[0] < max_runs:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < t_end:
            i = 0
            while i < len(best):
                for repl in ([], [0] * min(size, len(best) - i)):
                    cand = best[:i] + repl + best[i + size:]
                    if strip(cand) == best:
                        continue
                    if fails(cand) is not None:
                        best = strip(cand)
                        improved = True
                        break
                else:
                    i += size
                if time.time() > t_end:
                    break
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            while lo < hi and time.time() < t_end:
                mid = (lo + hi) // 2
                cand = best[:i] + [mid] + best[i + 1:]
                if fails(cand) is not None:
                    hi = mid
                    improved = True
                    best = cand
                else:
                    lo = mid + 1
        best = strip(best)
    return best, runs[0]


def shrink_main(argv):
    pid, fin, fout = argv
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    check = load_check(pid)
    setup_worker(check)
    with open(fin) as f:
        rec = json.load(f)
    best, n = shrink(check, rec["choices"], rec["cls"], rec.get("budget", 40))
    run, kind, v = execute(check, core.Src(prefix=best))
    if kind != "violation":
        best = rec["choices"]
        run, kind, v = execute(check, core.Src(prefix=best))
    res = {
        "property": pid, "kind": kind, "class": getattr(v, "cls", None), "message": getattr(v, "msg", str(v)),
        "choices": best, "shrink_runs": n, "choices_before": len(rec["choices"]), "seed_index": rec["i"],
        "verif_seed": rec["vseed"], "config": _jsonable(run.cfg), "faults": run.faults, "digest": run.digest(),
        "trace": run.events,
    }
    with open(fout, "w") as f:
        json.dump(res, f, indent=1, default=repr)


def digest_main(path):
    with open(path) as f:
        rep = json.load(f)
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    check = load_check(rep["property"])
    setup_worker(check)
    run, kind, v = execute(check, core.Src(prefix=rep["choices"]))
    os.dup2(out, 1)
    print(kind, run.digest())
    for e in run.events:
        print(" ", e)


def replay_cross(path, rep):
    """Violations of the class not-reproducible: the same choices executed in two processes give different logs."""
    outs = []
    for hs in (0, 777, 4242, 1, 99, 2, 3, 31337):
        r = subprocess.run([PY, "-B", "-W", "ignore", os.path.abspath(__file__), "--digest", path], env=env_for(hs), cwd=HERE, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=RUN_WALL + 60)
        outs.append((hs, r.stdout.decode(errors="replace").splitlines()))
        if outs[0][1] != outs[-1][1]:
            a, b = outs[0][1], outs[-1][1]
            k = next((i for i in range(1, min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            print("replay: two executions of the same choices differ (PYTHONHASHSEED=%d and %d), first at event %d:" % (outs[0][0], hs, k))
            print("  " + (a[k] if k < len(a) else "(end)")[:300])
            print("  " + (b[k] if k < len(b) else "(end)")[:300])
            return 0
    print("replay: %d executions in different processes were identical" % len(outs))
    return 4


def replay_main(path, quiet=False):
    with open(path) as f:
        rep = json.load(f)
    pid = rep["property"]
    if rep["class"] == "not-reproducible":
        return replay_cross(path, rep)
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    check = load_check(pid)
    setup_worker(check)
    run, kind, v = execute(check, core.Src(prefix=rep["choices"]))
    os.dup2(out, 1)
    if not quiet:
        print("config:", json.dumps(_jsonable(run.cfg)))
        for e in run.events:
            print(" ", e)
    print("replay: kind=%s class=%s digest=%s (recorded %s)" % (kind, getattr(v, "cls", None), run.digest()[:16], rep["digest"][:16]))
    if kind == "violation":
        print(v.msg)
        return 0 if (v.cls == rep["class"] and run.digest() == rep["digest"]) else 3
    return 4


def main(pid):
    t0 = time.time()
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    print("VERIF_SEED=%d tier=%s property=%s" % (vseed, tier, pid), flush=True)
    check = load_check(pid)
    n = check.RUNS[tier]
    if os.environ.get("VERIF_RUNS"):
        n = int(os.environ["VERIF_RUNS"])
    deadline = t0 + (BATCH_WALL if tier == "quick" else float(os.environ.get("VERIF_WALL_THOROUGH", "7200")))
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return _main(pid, check, n, vseed, tier, deadline, tmp, t0)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def _main(pid, check, n, vseed, tier, deadline, tmp, t0):
    lists = [list(range(k, n, NPROC)) for k in range(NPROC)]
    recs, errs = run_batch(pid, vseed, lists, deadline, tmp, "a", [0, 1, 2, 3])
    # second execution of a sample of the seeds: other process mix, other hash seed, reversed order
    m = min(n, max(8, int(n * getattr(check, "RESAMPLE", 0.05))))
    step = max(1, n // m)
    sample = list(range(0, n, step))[:m][::-1]
    k2 = 3
    lists2 = [sample[k::k2] for k in range(k2)]
    have_viol = any(r["kind"] == "violation" for r in recs)
    if not have_viol:
        recs2, errs2 = run_batch(pid, vseed, lists2, deadline, tmp, "b", [777, 4242, 99])
    else:
        recs2, errs2 = [], []
    errs += errs2
    by_i = {r["i"]: r for r in recs if r["kind"] != "deadline"}
    mism = [r["i"] for r in recs2 if r["kind"] != "deadline" and r["i"] in by_i and by_i[r["i"]].get("digest") != r.get("digest")]
    truncated = [r["i"] for r in recs + recs2 if r["kind"] == "deadline"]
    harness = [r for r in recs + recs2 if r["kind"] == "harness"]
    viols = [r for r in recs + recs2 if r["kind"] == "violation"]
    known = known_for(pid)
    fresh = [r for r in viols if is_known(known, r) is None]
    hit_known = collections.Counter()
    for r in viols:
        k = is_known(known, r)
        if k is not None:
            hit_known[k["id"]] += 1
    if mism and getattr(check, "NONDETERMINISM_IS_VIOLATION", False) and not fresh:
        i = min(mism)
        base = by_i[i]
        fresh = [dict(base, cls="not-reproducible", choices=base.get("choices"), msg="two executions of seed index %d in different processes differ" % i, nondet=True)]

    wall = time.time() - t0
    faults, probes, counts = collections.Counter(), collections.Counter(), collections.Counter()
    simtime = 0.0
    for r in recs:
        if r["kind"] == "deadline":
            continue
        faults.update(r["faults"])
        probes.update(r["probes"])
        counts.update(r["counts"])
        simtime += r["simtime"]
    done = [r for r in recs if r["kind"] in ("ok", "violation")]
    distinct = len({r["digest"] for r in done if r["nontrivial"]})
    interleavings = len({r["sched"] for r in done})
    samples = [
        {"seed_index": r["i"], "config": r.get("cfg"), "first_events": r.get("events"), "choices": r.get("nchoices")}
        for r in done if "events" in r
    ][:2]
    cov = {
        "evaluations": len(done),
        "distinct_nontrivial": distinct,
        "rule": check.RULE,
        "samples": samples,
        "simulated_runs": len(done),
        "runs_per_hour": int(len(done) / max(wall, 1e-9) * 3600),
        "seeds_per_hour": int(len(done) / max(wall, 1e-9) * 3600),
        "simulated_time_s": round(simtime, 3),
        "faults_injected": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "counts": dict(sorted(counts.items())),
        "distinct_schedules": interleavings,
        "distinct_schedules_measure": "different hashes of the sequence of scheduling and fault decisions of a run",
        "events_logged": sum(r["nev"] for r in done),
        "re_executed_in_other_process": len(recs2),
        "log_mismatches_on_re_execution": len(mism),
        "real_components": check.REAL,
        "stubbed_components": check.STUB,
        "known_findings_hit": dict(hit_known),
        "seed_derivation": "sha256('seed', VERIF_SEED, property, index)",
    }
    evid = {
        "property": pid, "tier": tier, "seed": vseed, "level": "exploration", "coverage": cov,
        "assumptions": list(check.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": len(fresh),
    }
    os.makedirs(EVID, exist_ok=True)

    def write_evidence():
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(evid, f, indent=1)
            f.write("\n")

    write_evidence()
    print(
        "%s: %d runs, %d distinct non-trivial, %d schedules, %d violations, faults=%s, %.1fs"
        % (pid, len(done), distinct, interleavings, len(viols), dict(faults), wall), flush=True,
    )
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)

    if fresh:
        # most frequent class first is not interesting: take the lowest seed index
        fresh.sort(key=lambda r: (len(r.get("choices") or []), r["i"]))
        r = fresh[0]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d-%d.json" % (pid, vseed, r["i"]))
        ok = False
        if not r.get("nondet"):
            fin = os.path.join(tmp, "shrink_in.json")
            with open(fin, "w") as f:
                json.dump({"choices": r["choices"], "cls": r["cls"], "i": r["i"], "vseed": vseed,
                           "budget": float(os.environ.get("VERIF_SHRINK_S", "40"))}, f)
            try:
                subprocess.run(
                    [PY, "-B", "-W", "ignore", os.path.abspath(__file__), "--shrink", pid, fin, path],
                    env=env_for(5), cwd=HERE, timeout=300, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                )
                ok = os.path.exists(path)
                if ok:
                    rp = subprocess.run(
                        [PY, "-B", "-W", "ignore", os.path.abspath(__file__), "--replay", "-q", path],
                        env=env_for(11), cwd=HERE, timeout=RUN_WALL + 60, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                    )
                    print(rp.stdout.decode(errors="replace").strip()[:1500])
                    print("replay in a fresh process: %s" % ("identical" if rp.returncode == 0 else "exit %d" % rp.returncode))
            except subprocess.TimeoutExpired:
                pass
        if not ok:
            with open(path, "w") as f:
                json.dump({"property": pid, "class": r["cls"], "message": r["msg"], "choices": r.get("choices"),
                           "digest": r["digest"], "seed_index": r["i"], "verif_seed": vseed, "config": r.get("cfg")}, f, indent=1)
        evid["wall_s"] = round(time.time() - t0, 2)
        write_evidence()
        print("violation classes: %s" % dict(collections.Counter(x["cls"] for x in fresh)))
        print("first: [%s] %s" % (r["cls"], r["msg"][:1000]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if harness:
        print("HARNESS ERROR in %d runs, first (seed index %d):\n%s" % (len(harness), harness[0]["i"], harness[0]["err"]))
        return 2
    if errs:
        print("WORKER ERRORS:\n" + "\n".join(errs))
        return 2
    if truncated and len(done) < 0.25 * n:
        print("ran out of wall time before finishing a quarter of the batch: no verdict")
        return 2
    if truncated:
        print("NOTE: ran out of wall time after %d of %d runs; the verdict is about these" % (len(done), n))
    if mism:
        # .. the property held in every run, in both executions of these seeds; recorded in the evidence file ..
        print("NOTE: %d of %d re-executed seeds gave a different log: %s" % (len(mism), len(recs2), mism[:10]))
    return 0


def determinism(pid, n):
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    tmp = tempfile.mkdtemp(prefix="verif_det_")
    dl = time.time() + 3600
    a, e1 = run_batch(pid, vseed, [list(range(k, n, 8)) for k in range(8)], dl, tmp, "a", [0, 1, 2])
    b, e2 = run_batch(pid, vseed, [list(range(k, n, 5))[::-1] for k in range(5)], dl, tmp, "b", [31337, "random"])
    da = {r["i"]: r.get("digest") for r in a}
    db = {r["i"]: r.get("digest") for r in b}
    bad = [i for i in da if da[i] != db.get(i)]
    print(pid, "seeds", n, "mismatches", len(bad), bad[:10], "errors", len(e1) + len(e2),
          collections.Counter(r["kind"] for r in a))
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad or e1 or e2 else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--worker":
        worker(a[1:])
    elif a[0] == "--shrink":
        shrink_main(a[1:])
    elif a[0] == "--digest":
        digest_main(a[1])
    elif a[0] == "--replay":
        q = a[1] == "-q"
        sys.exit(replay_main(a[-1], q))
    elif a[0] == "--determinism":
        sys.exit(determinism(a[1], int(a[2]) if len(a) > 2 else 100))
    else:
        try:
            code = main(a[0])
        except Exception:
            # .. trouble of the machinery is no verdict ..
            import traceback

            traceback.print_exc(file=sys.stdout)
            code = 2
        sys.exit(code)
