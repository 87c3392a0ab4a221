#!/bin/bash
# usage: check.sh P01 [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 3
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python check.py "$@"
