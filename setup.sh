#!/bin/bash
# Nothing to compile: checks that the simulator imports with the interpreter the checks use.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, ".")
import glob, importlib, os
assert hasattr(sys, "monitoring")
for f in sorted(glob.glob("dst/*.py") + glob.glob("dst/checks/c*.py")):
    compile(open(f).read(), f, "exec")
print("setup ok")
PY
