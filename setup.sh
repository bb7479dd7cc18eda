#!/bin/bash
# nothing to build: the checks read /repo's sources directly; make sure the tools are there
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import symx, z3, numpy, pandas, numba, sklearn; print('z3', z3.get_version_string())"
