#!/bin/bash
# run.sh <property> [quick|thorough]
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore harness/main.py "$@"
