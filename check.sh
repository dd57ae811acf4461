#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
TMPD=$(mktemp -d)
trap 'rm -rf "$TMPD"' EXIT
export MPLCONFIGDIR="$TMPD/mpl" TMPDIR="$TMPD" PYTHONPATH=.
"$PY" -m mc.run "$@"
