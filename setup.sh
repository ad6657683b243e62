#!/bin/sh
# nothing to build: check that the system and the simulator import
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m simvbmc.cli one C01 0 > /dev/null
