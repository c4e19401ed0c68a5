#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export VERIF_TMP="$(mktemp -d /tmp/verif.XXXXXXXX)"
export TMPDIR="$VERIF_TMP" MPLCONFIGDIR="$VERIF_TMP/mpl" PYTHONPYCACHEPREFIX="$VERIF_TMP/pyc"
export HOME="$VERIF_TMP"
mkdir -p "$VERIF_TMP/mpl" "$VERIF_TMP/pyc" evidence
unset PYTHONPATH
PY="${VERIF_PYTHON:-/opt/venv/bin/python}"
"$PY" -W ignore harness/main.py "$1"
rc=$?
case "$VERIF_TMP" in /tmp/verif.*) rm -rf "$VERIF_TMP";; esac
exit $rc
