#!/bin/bash
# nothing to build: the package is pure python and is imported from the working tree of /repo
set -e
cd /
REPO=${VERIF_REPO:-/repo}
PYTHONPATH=$REPO:/verif/lib PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import metcalcpy, numpy, pandas, scipy, xarray, vlib, gen
assert metcalcpy.__file__.startswith('$REPO/'), metcalcpy.__file__
print('monitors ready:', metcalcpy.__file__)"
