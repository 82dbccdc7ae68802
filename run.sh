#!/bin/bash
# bash /verif/run.sh <property id> [quick|thorough] [--replay FILE] [--part NAME]
# One check of one property, against the code in /repo's working tree.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
unset PYTEST_ADDOPTS
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
# Numba's on-disk cache does not look at callees: it would hide changes.
export WAKET_DISABLE_CACHING=1
export WAKET_NUM_THREADS=1 NUMBA_NUM_THREADS=${VP_NUMBA_THREADS:-1} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$HERE/vendor:$HERE/lib:$HERE/checks:${VP_REPO:-/repo}"
# Memory which the code forgets to initialise reads as large numbers.
export MALLOC_PERTURB_=165
W=$(mktemp -d /tmp/vp.XXXXXX)
trap 'rm -rf "$W"' EXIT
export MPLCONFIGDIR="$W/mpl" VP_SCRATCH="$W"
cd "$W" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" "$HERE/lib/runner.py" "$@"
