#!/bin/bash
# run a script with the project's interpreter
export PYTHONPATH=${VC_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/vp/mpl}
exec /opt/venv/bin/python "$@"
