#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist under dst/checks."""
import json, os, ast

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C21": "A prox operator is a pure function of its arguments: no schedule, clock, I/O, fault or history can change its value, so there is nothing to simulate; input sampling would be property-based testing, not this technique. (Their use inside solvers is covered indirectly by C05, C06 and C16.)",
    "C22": "Projections and linear oracles are pure functions without concurrency, time, I/O or state; only input search could decide it. (C08, C10 and C11 exercise them inside simulated runs.)",
    "C23": "Loss values and derivatives are pure functions of data and point; no nondeterminism to simulate. (The one scheduled loop, LogLoss.partial_deriv, is claimed under C19.)",
    "C24": "Pure arithmetic on arrays with sequential loops; no nondeterminism to simulate.",
    "C26": "PyTorch is not installed and nothing can be fetched; the bridge is in addition a pure function.",
}
checks = []
claimed = set()
for q in props:
    pid = q["id"]
    path = os.path.join(HERE, "dst", "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        continue
    src = open(path).read()
    note = None
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "LEVEL_NOTE":
            note = ast.literal_eval(node.value)
    claimed.add(pid)
    checks.append({
        "property": pid,
        "quick_cmd": "./check " + pid,
        "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
        "level": "exploration",
        "level_note": note or "seeded sample of executions of the real code under the simulator; no completeness claim",
    })
na = []
for q in props:
    if q["id"] not in claimed:
        na.append({"property": q["id"], "reason": NA.get(q["id"], "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every source of nondeterminism is reached through existing seams (callables, NumPy's module-level generator, os/builtins.open/urllib, callbacks). /repo carries only fix: commits; see known_findings.json and DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
