#!/bin/bash
# check.sh PROPERTY [--replay FILE]   (tier in VERIF_TIER, default quick)
# Rebuilds everything it needs from /repo's working tree and explores.
root=$(cd "$(dirname "$0")" && pwd)
exec python3 "$root/tools/check.py" "$@"
