#!/bin/bash
# bash run.sh <property-id> [--tier quick|thorough] [--replay FILE]
# Runs the check of one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
export PYTHONPATH="/repo:$here"
# A stale .pyc must never stand in for a changed source.
find /repo/bartpy -name __pycache__ -prune -exec rm -rf {} + 2>/dev/null
cd "$here" && exec /opt/venv/bin/python -B -m harness.main "$@"
