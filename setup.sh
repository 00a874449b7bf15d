#!/bin/bash
# nothing to build: checks interpret /repo's sources directly; verify that the tools are there
set -e
command -v python3-vt >/dev/null
python3-vt -c "import z3, sympy"
. /opt/vp/env.sh
$PY -c "import jax, netket, numba"
