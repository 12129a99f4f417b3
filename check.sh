#!/bin/bash
# usage: check.sh C01 [quick|thorough] [extra options for vp.run]
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-quick}; shift; shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1}
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -m vp.run "$id" --tier "$tier" "$@"
