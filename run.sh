#!/bin/bash
# run.sh PROPERTY quick|thorough  |  run.sh PROPERTY replay FILE
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec /opt/venv/bin/python "$here/vt/main.py" "$@"
