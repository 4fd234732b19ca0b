#!/bin/bash
# run_check.sh Cnn [quick|thorough]   or   run_check.sh Cnn --replay FILE
here=$(cd "$(dirname "$0")" && pwd)
exec python3-vt -B "$here/harness/run.py" "$@"
