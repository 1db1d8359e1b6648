#!/bin/bash
# usage: check.sh PROPERTY TIER
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
export VERIF_TIER="$2"
exec /opt/venv/bin/python -m symx.run "$1" --tier "$2" "${@:3}"
