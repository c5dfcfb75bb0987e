#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   |   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -X pycache_prefix=/nonexistent/pycache vt/run.py "$@"
