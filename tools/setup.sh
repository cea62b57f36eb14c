#!/bin/sh
# Nothing to build: the checks are Python and import /repo/src directly.
set -e
mkdir -p "$(dirname "$0")/../evidence"
/opt/venv/bin/python -B -c 'import fontTools, orjson, ufonormalizer' 2>/dev/null || /opt/venv/bin/python -B -c 'import fontTools'
