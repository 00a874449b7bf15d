#!/bin/bash
# dev helper: erun.sh C05 [case]
cd "$(dirname "$0")"; . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 NUMBA_CACHE_DIR=/tmp/verif_numba PYTHONPATH=$PWD
exec $PY -m engine.run "$1" /tmp/e_$1.json "$2"
