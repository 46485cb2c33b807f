#!/bin/bash
# usage: run.sh setup | run.sh <property> [--tier quick|thorough] | run.sh --replay FILE
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export CC=/usr/bin/gcc PROJ_NETWORK=OFF OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
PY=/opt/venv/bin/python
exec "$PY" -X faulthandler -m mc "$@"
