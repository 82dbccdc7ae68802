#!/bin/bash
# Nothing to compile: verify that the interpreter and the vendored Hypothesis work.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$HERE/vendor:$HERE/lib" /opt/venv/bin/python -c "import hypothesis, vp, numpy, numba, scipy"
