#!/bin/bash
# usage: run.sh <property id> <quick|thorough> [replay FILE]
# Runs one property's monitors against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/ptera-check.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export HOME=$work LANG=C.UTF-8
export PYTHONPATH=/repo:$here/checks PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen LIBGL_ALWAYS_SOFTWARE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
# A new numba cache for each run: a kept one can serve machine code from before a change.
export NUMBA_CACHE_DIR=$work/numba MPLCONFIGDIR=$work/mpl PTERA_WORK=$work
id=$1; tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
cd "$work" || exit 2
/opt/venv/bin/python "$here/checks/main.py" "$id" "$tier" "${@:3}"
