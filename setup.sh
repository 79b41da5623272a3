#!/bin/bash
# Nothing is built: the checks import /repo/python/src directly.  Confirm the interpreter works.
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, matplotlib" || exit 1
mkdir -p "$(dirname "$0")/evidence"
