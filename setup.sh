#!/bin/bash
# Nothing is built: the checks are Python and import /repo directly.  This only verifies the tools that they need.
cd "$(dirname "$0")" || exit 1
python3-vt -B -c 'import hypothesis, sys; sys.exit(sys.version_info < (3, 12))' || exit 1
mkdir -p evidence replays
