#!/bin/bash
# Nothing to build: the checks import the library from /repo/src.  This verifies that everything needed is there.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. MPLBACKEND=Agg
mkdir -p evidence replays
"$PY" -c "import mc.lib, mc.spec, mc.interp, mc.engine; print('skspatial from', mc.lib.PKG_DIR)"
