#!/bin/bash
# Nothing to build: the code under test is pure Python imported from /repo and
# Hypothesis is vendored.  Verify that both import.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/vendor:/repo" MPLBACKEND=Agg
/opt/venv/bin/python -W ignore -c 'import hypothesis, numpy, h5py, impactutils, vp.core; print("ok", hypothesis.__version__)'
