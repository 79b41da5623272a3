#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]     or: run.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
MPLCONFIGDIR="$(mktemp -d /tmp/mc-XXXXXX)" || exit 2
export MPLCONFIGDIR
trap 'rm -rf "${MPLCONFIGDIR:?}"' EXIT
PY=/opt/venv/bin/python
"$PY" -m mc.main "$@"
