#!/bin/bash
# nothing to build: the checks are interpreted. Verifies that the interpreter and its packages are there.
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 "$py" -c 'import numpy, scipy, numpy_indexed, pycosat'
