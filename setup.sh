#!/bin/bash
# Nothing to build: the checks read /repo's source on every run. Verify the tools.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
python3-vt - <<'PY'
import z3, sys
s = z3.Solver(); x = z3.Int("x"); s.add(x > 1)
assert s.check() == z3.sat
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
PY
