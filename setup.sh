#!/bin/bash
# Nothing to build: confirm that the interpreter and the libraries are there.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '.')
from hec import env
env.setup_paths()
import hypothesis, matplotlib, numpy, scipy, yaml
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
P
