#!/bin/bash
# Builds the real sources of /repo (out of tree) together with the model-checking drivers.
#   build.sh OUTDIR [mc|mcbf]
# Nothing is written inside /repo.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
exec python3 "$HERE/build.py" "${REPO:-/repo}" "$HERE" "$OUT" ${2:-mc}
