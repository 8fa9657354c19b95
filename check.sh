#!/bin/bash
# usage: check.sh <property> <tier>: run a check with the repository's Python.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 \
       OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg
export VERIF_TIER=$2
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python run.py "$1" --tier "$2"
