#!/bin/bash
# Nothing to build: the specification is interpreted by TLC, the harness by Python.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import mpmath, sympy, numpy, lxml"
