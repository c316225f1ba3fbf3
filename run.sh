#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 LANG=C.UTF-8
exec /opt/venv/bin/python -m mc.framework "$@"
