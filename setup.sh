#!/bin/bash
# nothing to build: the checks are Python and use the installed venvs; verify that they are there
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
import symx, z3, cvc5, mpmath, jax
print("z3", z3.get_version_string(), "cvc5", cvc5.__version__, "jax", jax.__version__)
P
mkdir -p evidence replays
