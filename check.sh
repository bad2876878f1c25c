#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] -- runs one check against the working tree in /repo
#        check.sh selftest                  -- the setup command: interpreter, imports, state key
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/nopycache
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
PY=/opt/venv/bin/python
if [ "$1" = selftest ]; then
    exec $PY -W ignore -c 'import sys; sys.path.insert(0, "mc"); import core; core.setup_import(); import numpy, scipy; print("ready")'
fi
exec $PY -W ignore mc/checks.py "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
