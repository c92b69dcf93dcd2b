#!/bin/bash
# Nothing to build: checks that the tools the checks need are present.
set -e
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -c "import numpy, mpmath, sympy, pyadic, syngular"
echo ok
