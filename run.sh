#!/bin/bash
# run.sh <property> [--thorough] [--replay file] [--only pattern] [--all]
# runs one check against the working tree of /repo
HERE=$(cd "$(dirname "$0")" && pwd)
SCR=$(mktemp -d /tmp/verifrun.XXXXXX)
trap 'rm -rf "$SCR"' EXIT
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR="$SCR/mpl"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$SCR/pyc" PYTHONHASHSEED=0 HOME="$SCR"
mkdir -p "$SCR/mpl"
cd "$SCR"
/opt/venv/bin/python -W ignore "$HERE/mc/run.py" "$@"
exit $?
