#!/bin/bash
# usage: check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--seed N]
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="$HERE:$HERE/vendor:${VP_REPO:-/repo}"
export PYTHONNOUSERSITE=1
cd "$HERE" || exit 2
exec /opt/venv/bin/python -W ignore -m vp.main "$@"
