#!/bin/bash
# Self-test of the oracles (nothing is built: wiz and the checks are pure Python)
cd "$(dirname "$0")" || exit 3
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
P=${PY:-/opt/venv/bin/python}
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec "$P" -W ignore pbt/selftest.py
