#!/bin/bash
# run.sh P12 quick|thorough      run.sh replay FILE
cd "$(dirname "$0")" || exit 3
export PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH=/opt/vp/compat:/repo:/verif
export MPLBACKEND=agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
TMP_OWN=$(mktemp -d)
trap 'rm -rf "$TMP_OWN"' EXIT
export TMPDIR="$TMP_OWN" PYTHONPYCACHEPREFIX="$TMP_OWN/pyc" MPLCONFIGDIR="$TMP_OWN/mpl" IPYTHONDIR="$TMP_OWN/ipython"
/opt/venv/bin/python -W ignore -m vc.main "$@"
