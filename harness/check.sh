#!/bin/bash
# usage: bash harness/check.sh <ID> [quick|thorough] [extra args of run.py]
# Runs one property check against /repo's working tree in a controlled environment.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
case "${1:-}" in quick|thorough) export VERIF_TIER=$1; shift;; esac
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONSTARTUP MALLOC_PERTURB_ MALLOC_MMAP_THRESHOLD_ GLIBC_TUNABLES
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$HERE/run.py" "$ID" "$@"
