#!/bin/bash
# Nothing to install: checks the interpreter and that the framework's modules parse.
cd "$(dirname "$0")" || exit 1
set -e
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import ast, glob
for f in glob.glob("rvmon/**/*.py", recursive=True):
    ast.parse(open(f).read(), f)
import numpy, scipy, pandas, emcee, Cython
print("rvmon ready")
PY
