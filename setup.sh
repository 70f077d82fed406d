#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harness is Python. Verify the tools are there.
set -e
cd "$(dirname "${BASH_SOURCE[0]}")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B -c 'import numpy, lxml, yaml'
echo setup ok
