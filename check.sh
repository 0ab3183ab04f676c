#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE] [--only SUB] [--scale X] [--verbose]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="$here/vendor:${VERIF_LOP_SRC:-/repo/src}:$here/lib"
scratch="$(mktemp -d /tmp/verifrun.XXXXXX)"
export MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch"
trap 'rm -rf "$scratch"' EXIT
cd "$here" && /opt/venv/bin/python -c "import sys, harness; sys.exit(harness.main(sys.argv[1:]))" "$@" </dev/null
