#!/bin/bash
# run.sh <property>: decide one property against /repo's working tree (imports the sources directly, nothing is built)
cd "$(dirname "$0")/.." || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B harness/check.py "$1"
