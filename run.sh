#!/bin/bash
# run.sh <PROPERTY> [quick|thorough]   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 1
REPO="${MC_REPO:-/repo}"
T=$(mktemp -d /tmp/mc.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg HOME="$T" TMPDIR="$T" MC_SCRATCH="$T"
if [ -d /opt/mplconfig ] && [ -w /opt/mplconfig ]; then cp -r /opt/mplconfig "$T/mpl" 2>/dev/null; fi
export MPLCONFIGDIR="$T/mpl" NUMBA_CACHE_DIR="$T/numba"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
V="$PWD"; export PYTHONPATH="$REPO:$V/mc/stubs:$V"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$T" || exit 1
if [ "$1" = setup ]; then "$PY" -W ignore -c "import sympy, numpy, pandas" && echo "ready"; exit $?; fi
"$PY" -W ignore -m mc.run "$@" 2>"$T/err"
rc=$?
if [ $rc -ne 0 ]; then tail -5 "$T/err" >&2; fi
[ $rc -le 1 ] || { echo "run.sh: exit $rc" >&2; }
exit $rc
