#!/bin/bash
# Nothing is compiled ahead of a check; make sure the tools the checks use are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy, scipy; print('numpy', numpy.__version__)"
