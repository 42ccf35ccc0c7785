#!/bin/sh
# ./check.sh Cxx quick|thorough   runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=.
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m nfv.run "$@"
