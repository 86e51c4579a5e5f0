#!/bin/bash
# run.sh C01 [check.py options]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
# never read stale bytecode of the code under test
PYTHONPYCACHEPREFIX=$(mktemp -d) || exit 2
export PYTHONPYCACHEPREFIX
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python -W ignore check.py "$@"
