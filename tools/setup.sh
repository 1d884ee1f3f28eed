#!/bin/sh
# Nothing to build ahead of time: each check builds from /repo's working tree.
set -e
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import Cython, numpy, roaringbitmap'
mkdir -p evidence replay
