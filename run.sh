#!/bin/bash
# ./run.sh <property id> [--replay FILE] [--tier quick|thorough]
# Runs one property check against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg OPENBLAS_CORETYPE=Haswell OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
# never use bytecode of an earlier version of the code under test
scratch=$(mktemp -d /tmp/verif-ibl.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export PYTHONPYCACHEPREFIX="$scratch/pyc" VERIF_SCRATCH="$scratch"
/opt/venv/bin/python "$here/harness/main.py" "$@"
exit $?
