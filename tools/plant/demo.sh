#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here"
exec timeout 120 "$PY" "$here/demo.py"
