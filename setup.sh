#!/bin/bash
# nothing is compiled or installed: the checks are Python and import /repo's working tree; verify the interpreter can run them
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
cd "$here" && /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, scipy, astropy, galpy
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "galpy", galpy.__version__)
P
