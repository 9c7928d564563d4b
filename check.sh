#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough]
cd "$(dirname "$0")" && export PYTHONDONTWRITEBYTECODE=1 && exec /opt/venv/bin/python check.py "$@"
