#!/bin/bash
# check.sh <property id> [--replay FILE]: decide one property against the
# current working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/setup.sh" || exit 3
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
exec /opt/venv/bin/python -B "$here/vlib/main.py" "$@"
