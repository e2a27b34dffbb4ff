#!/bin/bash
# Nothing to build: the checks import the package straight from /repo's working tree. Verify the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -s -c "import numpy, scipy, matplotlib; print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'matplotlib', matplotlib.__version__)"
