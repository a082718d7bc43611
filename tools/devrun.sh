#!/bin/bash
# devrun.sh <copy> <ID> ... : run a check against a scratch copy (development only)
R=$1; shift
SCR=$(mktemp -d /tmp/verifdev.XXXXXX)
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR="$SCR/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME="$SCR"
mkdir -p $SCR/mpl
cp -a /verif/mc $SCR/mc; sed -i "s#'/repo'#'$R'#g; s#'/repo/'#'$R/'#g" $SCR/mc/run.py
cp /verif/known_findings.json $SCR/; mkdir -p $SCR/evidence $SCR/replays
cd $SCR
/opt/venv/bin/python -W ignore $SCR/mc/run.py "$@"
rc=$?
rm -rf $SCR
exit $rc
