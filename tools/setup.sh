#!/bin/sh
# Nothing has to be built: checks that the interpreters and solvers the checks use are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence/replay
/opt/venv/bin/python -c 'import numpy, pandas, scipy'
python3-vt -c 'import z3, cvc5'
