#!/bin/bash
# nothing to build: the checks import the python sources of /repo. Verify the tools are there.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -c 'import numpy, scipy, mc.core, mc.dense, mc.states'
