#!/bin/bash
# usage: check.sh <property id> [--thorough] [--replay FILE]
# Runs one property's monitors against the code in /repo's working tree.
cd "$(dirname "$0")" || exit 3
T=$(mktemp -d /tmp/vp.XXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
export MPLCONFIGDIR="$T/mpl" TMPDIR="$T" MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
mkdir -p "$MPLCONFIGDIR"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -m vp.main "$@"
exit $?
