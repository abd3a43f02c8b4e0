#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo "$PY" -c "import numpy, scipy, sympy, networkx, numba, mosek; print('ok')"
