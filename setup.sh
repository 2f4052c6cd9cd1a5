#!/bin/bash
# Nothing to compile: the checks run phyem from /repo's working tree in a fresh interpreter each time.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import numpy, scipy, mpi4py, matplotlib" && test -d /repo/msehtt
