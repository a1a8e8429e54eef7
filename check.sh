#!/bin/bash
# usage: check.sh ID quick|thorough   (runs one property's exploration against /repo's working tree)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME=${HOME:-/root}
export NUMBA_DISABLE_JIT=1
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH=${MC_REPO:-/repo}
exec /opt/venv/bin/python -m mc.run "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
