#!/bin/bash
# ./check.sh C01 [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")/harness" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/veriftools/pyvenv/bin/python -m vp "$@"
