#!/bin/bash
# run.sh CHECK [--tier quick|thorough] [--only JOB] [--replay FILE]
# Runs one property check against /repo's current working tree.
cd "$(dirname "$(realpath "$0")")" || exit 2
export HOME=/root JAX_PLATFORMS=cpu PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=${VERIF_REPO:-/repo}:$PWD
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=2
exec /opt/venv/bin/python -m mc.supervisor "$@"
