#!/bin/bash
# check.sh PROPERTY [quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 9
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from vt import core; sys.exit(core.main(sys.argv[1:]))' "$@"
