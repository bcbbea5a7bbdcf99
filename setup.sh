#!/bin/bash
# Nothing to compile: check that the interpreter, its libraries and the code under test load.
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$(mktemp -d /tmp/vp.XXXXXX)"
"$PY" -c "from vp import common, gen, oracle, ref, moving; common.load_pycba(); import scipy"
rc=$?
rm -rf -- "$MPLCONFIGDIR"
exit $rc
