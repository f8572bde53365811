#!/bin/bash
# Nothing to build: the simulator is Python run from here against /repo's sources.
# Only checks that the interpreter and libraries are there.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import numpy, scipy, twisted, asynqueue, pyDOE, zope.interface" && echo ok
