#!/bin/bash
# usage: run.sh ID [quick|thorough]   |   run.sh ID --replay FILE
# Runs the generated-input check of one property against /repo's current working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTEST_ADDOPTS
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore "$here/check.py" "$@"
