#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 NO_PROXY='*' no_proxy='*'
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
