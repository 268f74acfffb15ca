#!/bin/bash
# Nothing to compile: the simulator is Python and imports /repo/src directly. Check that it starts.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import dst.engine, dst.simfs, dst.world"
