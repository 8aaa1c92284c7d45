#!/bin/bash
# Nothing to compile ahead: checks import /repo/src directly. Verify the prerequisites.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -B - <<'PY'
import sys, importlib.util
assert sys.version_info >= (3, 12), sys.version
assert importlib.util.find_spec("rich"), "rich is missing"
PY
for tool in gcc valgrind; do command -v $tool >/dev/null || echo "warning: $tool is missing (C07 needs it)"; done
echo ready
