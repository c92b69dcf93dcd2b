#!/bin/bash
# check.sh <property id> [tier]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
exec /opt/venv/bin/python -W ignore "$here/harness/run.py" "$@"
