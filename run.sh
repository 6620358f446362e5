#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough   or   run.sh <PROPERTY> --replay FILE
# Runs one property's monitors against the code in /repo (override with RVMON_REPO for scratch copies).
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export RVMON_REPO="${RVMON_REPO:-/repo}"
export RADVEL_DATADIR="$RVMON_REPO/example_data"
unset PYTHONPATH
exec /opt/venv/bin/python -m rvmon.run "$@"
