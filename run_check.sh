#!/bin/bash
# usage: run_check.sh <PROPERTY-ID> [--replay FILE]
# Runs one property check against /repo's working tree.  VERIF_SEED / VERIF_TIER come from the environment.
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -W ignore vp/main.py "$@"
