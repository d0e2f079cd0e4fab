#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE] : one check.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=/root PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLCONFIGDIR=/tmp/nfempy-mpl-$$
trap 'rm -rf "/tmp/nfempy-mpl-$$"' EXIT
unset PYTHONPATH
/opt/venv/bin/python -m mc "$@"
