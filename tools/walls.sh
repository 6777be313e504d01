#!/bin/bash
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=agg SIM_REEXEC=1 MPLCONFIGDIR=/opt/vp/cache/mpl PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/walls.py" "$@" 2>/dev/null
