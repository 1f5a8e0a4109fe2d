#!/bin/bash
# Nothing to compile: check that the interpreter and the code under test are usable.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c '
from mc import core
core.import_check("C01")
print("setup ok, code under test:", core.REPO)'
