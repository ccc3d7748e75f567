#!/bin/bash
# check.sh <PROPERTY>|replay <FILE>|all|selfcheck
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
exec /opt/venv/bin/python pbt/run.py "$@"
