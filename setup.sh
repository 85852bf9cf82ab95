#!/bin/bash
# Nothing to build: the checks are Python and import goats from /repo/src.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/evidence"
cd /tmp
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$HERE:/repo/src" /opt/venv/bin/python -c "
import numpy, scipy, netCDF4
from goats.core import metric, symbolic, aliased
from mc import core, units
print('ok')"
