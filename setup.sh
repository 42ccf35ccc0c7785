#!/bin/sh
# Nothing to build: checks that the interpreter, the libraries and norfair's source tree are usable.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. "$PY" -c "
from nfv import boot
nf = boot.load()
print('norfair from', nf.__file__)
" && mkdir -p evidence/replay
