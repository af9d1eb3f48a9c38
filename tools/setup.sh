#!/bin/bash
# Nothing to build: check that the tools are there.
set -e
cd "$(dirname "$0")/.."
python3-vt -c "import z3; import pyvc.engine"
command -v cvc5 >/dev/null
/opt/venv/bin/python -c "import numpy"
mkdir -p evidence replays
