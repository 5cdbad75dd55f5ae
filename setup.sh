#!/bin/bash
# Nothing is built ahead of time: every check compiles wildwood from /repo itself.
# This only verifies that what the checks need is there.
here="$(cd "$(dirname "$0")" && pwd)"
/opt/venv/bin/python -c 'import numpy, pandas, sklearn, numba' || exit 1
ls /opt/veriftools/pyvenv/lib/python3.12/site-packages/hypothesis/__init__.py >/dev/null || exit 1
mkdir -p "$here/evidence"
