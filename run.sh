#!/bin/bash
# usage: run.sh <property id> [thorough] [--replay FILE]
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
id="$1"; shift
exec "$PY" -W ignore -m mc.entry "$id" "$@"
