#!/bin/bash
# Nothing to build: the checks import /repo/py directly. Verify the parts.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy, fitsio, numba" 2>/dev/null || \
  PYTHONPATH=stubs /opt/venv/bin/python -c "import numpy, scipy, fitsio, numba"
