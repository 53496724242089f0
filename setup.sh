#!/bin/bash
# nothing to build: the framework is Python run from the committed files; check that the tools are present
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3" 
/opt/venv/bin/python -c "import numpy, scipy, pandas, h5py"
command -v cvc5 >/dev/null
mkdir -p evidence
echo setup ok
