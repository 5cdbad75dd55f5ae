#!/bin/bash
# usage: check.sh <property id> <quick|thorough> [extra runner options]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here"
unset NUMBA_DISABLE_JIT NUMBA_CACHE_DIR
id="$1"; tier="$2"; shift 2
export VERIF_TIER="$tier"
cd "$here" && exec /opt/venv/bin/python -m wwv.runner "$id" --tier "$tier" "$@"
