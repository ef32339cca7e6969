#!/bin/bash
# nothing to compile: check that the interpreter and the code under test load
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
mkdir -p evidence replays
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec "$py" -m sim.tool info C01
