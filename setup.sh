#!/bin/bash
# Nothing to build: TLC interprets spec/ directly and the harness imports /repo. Check that both work.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "harness"); import props, tlc; assert tlc.jars()'
java -version >/dev/null 2>&1
mkdir -p evidence
