#!/bin/bash
# usage: ./run.sh <property id> [--replay FILE]     (tier from VERIF_TIER, seed from VERIF_SEED)
# Runs one check against /repo's current working tree. Nothing is cached between runs: numba compiles
# the code of /repo afresh into a scratch cache directory which is removed at the end.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH= PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export http_proxy=http://127.0.0.1:9 https_proxy=http://127.0.0.1:9
export WWMON_SCRATCH="$(mktemp -d)"
export NUMBA_CACHE_DIR="$WWMON_SCRATCH/numba" JOBLIB_TEMP_FOLDER="$WWMON_SCRATCH"
export SCIKIT_LEARN_DATA="$WWMON_SCRATCH/sk" WILDWOOD_DATA="$WWMON_SCRATCH/ww"
[ "$1" = C17 ] && export NUMBA_BOUNDSCHECK=1
trap 'rm -rf "$WWMON_SCRATCH"' EXIT
/opt/venv/bin/python -W ignore -m wwmon.engine "$@"
