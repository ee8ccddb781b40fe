#!/bin/bash
# check.sh PROPERTY quick|thorough : explores the property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
