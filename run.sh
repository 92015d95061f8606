#!/bin/bash
# bash run.sh <property> [quick|thorough] [--only CASE]: runs one check from /verif against /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
W=$(mktemp -d /tmp/verif_run.XXXXXX)
trap '/bin/rm -rf "$W"' EXIT
export PYTHONPYCACHEPREFIX="$W/pyc" NUMBA_CACHE_DIR="$W/numba" VERIF_SCRATCH="$W/scratch"
mkdir -p "$W/scratch" "$W/mpl"
export MPLBACKEND=Agg MPLCONFIGDIR="$W/mpl" OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
[ -d /opt/cache/mpl ] && cp -r /opt/cache/mpl/. "$W/mpl/" 2>/dev/null
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore PYTHONPATH="/verif_none:${VERIF_REPO:-/repo}:$PWD"
# semantics of the jitted kernels are those of their Python source; compiling them takes longer than most checks
[ -n "${VERIF_JIT:-}" ] || export NUMBA_DISABLE_JIT=1
PY=/opt/venv/bin/python
"$PY" -m mc.run "$@"
