#!/bin/bash
# ./check.sh C01 quick|thorough      ./check.sh --replay replays/C01-xxxx.json
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export JAX_ENABLE_X64=${MC_X64:-1} TF_CPP_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 ${MC_XLA_FLAGS}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONPATH="/repo:$PWD"
export PYTHONSAFEPATH=1
exec /opt/venv/bin/python -m mc "$@"
