#!/bin/bash
# replay.sh <file>: exit 1 if the recorded violation happens again exactly
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m sim.runner replay "$1"
