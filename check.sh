#!/bin/bash
# usage: check.sh C01 [--tier thorough] [--seed N] ... | check.sh --replay FILE
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 LC_ALL=C.UTF-8 MPLBACKEND=Agg
unset PYTHONPATH PYTHONOPTIMIZE PYTHONWARNINGS PYTHONSTARTUP
exec /opt/venv/bin/python -W ignore -m nvsim.check "$@"
