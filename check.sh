#!/bin/bash
# check.sh PID [--tier quick|thorough] [--only CASE]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 RAYON_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/repo/src MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore mc/run.py "$@"
