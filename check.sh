#!/bin/bash
# Run one property check: check.sh P01 [args of dst.run]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= \
       OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m dst.run "$@"
