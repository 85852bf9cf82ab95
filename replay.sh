#!/bin/bash
# usage: bash /verif/replay.sh /verif/evidence/replays/PXX-N.json
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$HERE:/repo/src"
export PYTHONPYCACHEPREFIX=$(mktemp -d /tmp/mc-XXXXXX)
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
export MC_SCRATCH="$PYTHONPYCACHEPREFIX"
FILE=$(realpath "$1")
cd "$PYTHONPYCACHEPREFIX" || exit 2
/opt/venv/bin/python -m mc.run --replay "$FILE"
