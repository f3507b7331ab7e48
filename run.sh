#!/bin/bash
# run.sh <property id>: run one check with a fixed environment.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
export PYTHONPATH="/repo:$here"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore "$here/checks/$1.py"
