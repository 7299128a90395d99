#!/bin/bash
# check.sh <property-id> [args]: run one check against /repo's current working tree.
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
PYC=$(mktemp -d /tmp/verif_pyc.XXXXXX) || exit 3
trap 'rm -rf "$PYC"' EXIT
# A fresh byte-code cache: always the current source, and nothing is written to /repo.
export PYTHONPYCACHEPREFIX="$PYC" PYTHONHASHSEED=0 PYTHONPATH="$REPO:$HERE/lib" PYTHONDONTWRITEBYTECODE=1
export TMPDIR=/tmp GIT_CONFIG_NOSYSTEM=1 GIT_CONFIG_GLOBAL=/dev/null GIT_TERMINAL_PROMPT=0 LC_ALL=C.UTF-8
cd "$HERE" || exit 3
id=$1; shift
/opt/venv/bin/python "$HERE/checks/$id.py" "$@"
exit $?
