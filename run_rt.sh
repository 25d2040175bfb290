#!/bin/sh
# run one harness in one process: run_rt.sh c05 [args]
p=$1; shift
cd /tmp && PYTHONPATH=${VERIF_REPO:-/repo}:/verif PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 exec /opt/venv/bin/python -m rt.$p "$@"
