#!/bin/bash
# nothing to build: checks that interpreter, solver and package can be imported offline
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '.')
import symx                     # noqa
import z3
print('z3', z3.get_version_string())
P
