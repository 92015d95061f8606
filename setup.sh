#!/bin/bash
# Nothing to compile: checks import /repo's working tree. Verify that the interpreter and the package are usable.
set -eu
cd "$(dirname "$0")"
W=$(mktemp -d /tmp/verif_setup.XXXXXX)
trap '/bin/rm -rf "$W"' EXIT
export PYTHONPYCACHEPREFIX="$W/pyc" NUMBA_CACHE_DIR="$W/numba" NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg MPLCONFIGDIR="$W"
mkdir -p evidence
PYTHONPATH=/repo /opt/venv/bin/python -c "import dsptoolbox, os; assert os.path.realpath(dsptoolbox.__file__).startswith('/repo/'); print('ok')"
