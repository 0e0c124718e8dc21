#!/bin/bash
# check.sh <property> [quick|thorough]: one property's check
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=${BELLA_REPO:-/repo}
exec /opt/venv/bin/python -B "$here/harness/run.py" "$1"
