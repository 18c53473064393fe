#!/bin/bash
# Nothing to compile: verify that the interpreter and the code under test import.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -W ignore -c "import numpy, scipy, cvxpy, cdd, rigeo"
