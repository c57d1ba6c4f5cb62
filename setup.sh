#!/bin/bash
# Nothing to build: the checks are Python and read /repo's current source. Fail early if the tools are missing.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence out
/opt/veriftools/pyvenv/bin/python -c "import z3, sx.runner; print('z3', z3.get_version_string())"
