#!/bin/bash
# run.sh <property> <quick|thorough> [--replay FILE]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$S/mpl" CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 OMP_WAIT_POLICY=PASSIVE GOMP_SPINCOUNT=0 OPENBLAS_NUM_THREADS=1 \
  MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 \
  PYTHONWARNINGS=ignore TMPDIR="$S"
mkdir -p "$S/mpl"
SHIM="checks/$(echo "$1" | tr 'A-Z' 'a-z').c"
if [ -f "$SHIM" ]; then gcc -shared -fPIC -O1 -w -o "$S/shim.so" "$SHIM" -ldl || exit 2; export VERIF_SHIM="$S/shim.so"; fi
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
env ${VERIF_SHIM:+LD_PRELOAD="$VERIF_SHIM"} "$PY" run.py "$@" 2> >(tail -c 4000 >&2)
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # killed or failed to start (import error of the code under test): that is a broken property, not a held one
  mkdir -p evidence/replay
  echo "{\"property\": \"$1\", \"case\": \"process\", \"what\": \"check process ended with status $rc\", \"tier\": \"quick\"}" > "evidence/replay/$1-process.json"
  echo "VIOLATION property=$1 replay=/verif/evidence/replay/$1-process.json"
  rc=1
fi
exit $rc
