#!/bin/bash
# bash /verif/run.sh <property> <quick|thorough> [--case family:index]
# Runs one monitor against the working tree of /repo (pure Python: nothing to compile, the
# interpreter reads /repo's sources directly and writes no bytecode).
P=${1:?property}; T=${2:-quick}; shift 2
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export VERIF_TIER=$T VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$VERIF_REPO:$HERE/lib
SCR=$(mktemp -d /tmp/vmon.XXXXXX) || exit 3
export VERIF_SCRATCH=$SCR TMPDIR=$SCR HOME=$SCR
cd "$SCR" || exit 3
/opt/venv/bin/python -B "$HERE/checks/$(echo "$P" | tr 'A-Z' 'a-z').py" "$T" "$@"
RC=$?
cd / ; rm -rf "$SCR"
exit $RC
