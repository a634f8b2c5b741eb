#!/bin/bash
# Nothing is prebuilt: every check compiles /repo's current tree itself.  This only verifies the tool chain.
set -e
/opt/venv/bin/python -c "import numpy, scipy, h5py, mpi4py, Cython, matplotlib"
gcc --version >/dev/null
