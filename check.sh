#!/bin/bash
# usage: bash /verif/check.sh PROPERTY [quick|thorough]
# Runs the exploration of one property against /repo's current working tree.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$HERE:/repo/src"
# never stale bytecode: goats is compiled from the working tree on every run
export PYTHONPYCACHEPREFIX=$(mktemp -d /tmp/mc-XXXXXX)
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
export MC_SCRATCH="$PYTHONPYCACHEPREFIX"
cd "$PYTHONPYCACHEPREFIX" || exit 2
/opt/venv/bin/python -m mc.run "$1" "${2:-quick}"
