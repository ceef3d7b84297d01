#!/bin/bash
# run.sh <PROPERTY> [quick|thorough]: builds the harness against /repo's working
# tree and runs one check. Without a tier, VERIF_TIER decides (default quick).
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py "$@"
