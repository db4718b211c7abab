#!/bin/bash
# Nothing has to be prepared in advance: every check copies /repo's working tree into a scratch
# folder and compiles the native extension there.  This only verifies that the tools are there and
# warms the cache of compiled extensions (keyed by the content of cpp/), which no check relies on.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -P "$HERE/lib/overlay.py" || exit 1
