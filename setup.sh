#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Verify that the interpreter and the tree are usable.
cd "$(dirname "$0")" || exit 1
chmod +x run.sh
mkdir -p evidence/replay
PY=/opt/venv/bin/python
"$PY" -c "import numpy, scipy, torch, numba, pyfftw, pandas, polars, pyevtk, matplotlib, plotly" || exit 1
"$PY" -m compileall -q lib checks run.py >/dev/null 2>&1
exit 0
