#!/bin/bash
# run.sh check P01 [--tier quick|thorough] | run.sh replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
export VERIF_REPO="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d /tmp/verif.XXXXXX)"
export MPLCONFIGDIR="$scratch/mpl" VERIF_SCRATCH="$scratch"
mkdir -p "$MPLCONFIGDIR"
export PYTHONPATH="$here:$VERIF_REPO"
trap 'rm -rf "$scratch"' EXIT
/opt/venv/bin/python -W ignore "$here/symx/main.py" "$@"
