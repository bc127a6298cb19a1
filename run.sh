#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMBA_DISABLE_JIT=1
export CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONWARNINGS=ignore
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W" MPLCONFIGDIR="$W"
cd "$W" || exit 2
/opt/venv/bin/python "$here/run.py" "$@"
rc=$?
cd /
exit $rc
