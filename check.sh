#!/bin/bash
# check.sh <property>: decides the property by simulation of /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m sim.runner check "$1"
