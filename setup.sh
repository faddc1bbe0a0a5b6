#!/bin/bash
# Nothing to compile: the checks run the working tree of /repo through the installed Python environment.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONPATH=/repo/src:$PWD PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import mc.core, mc.e2e, libecalc; print("ok", libecalc.__file__)'
