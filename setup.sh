#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. Building once
# here only shows early that the toolchain works and warms caches that survive.
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py --build-only
