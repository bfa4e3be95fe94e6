#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra args]   (run in /verif)
cd "$(dirname "$0")" || exit 3
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
P=${PY:-/opt/venv/bin/python}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR=$(mktemp -d /tmp/wizpbt.XXXXXX)
ID=$1; shift
TIER=${VERIF_TIER:-quick}
case "$1" in quick|thorough) TIER=$1; shift;; esac
"$P" -W ignore pbt/main.py "$ID" --tier "$TIER" "$@"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
