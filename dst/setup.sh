#!/bin/bash
# Nothing to build: the framework is Python. Fails early if the tools are not there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import numpy, pandas, matplotlib
from dst import core, sched, seams, world, ops, hist
print('framework ready')"
