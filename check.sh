#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale X]
here="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$here"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$here" && exec "$PY" -W ignore -m pbt.core "$@"
