#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--only MONITOR[:INDEX]] [--replay FILE]
# Runs one runtime-monitoring check against the current working tree of /repo.
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -P -u "$HERE/lib/runner.py" "$@"
