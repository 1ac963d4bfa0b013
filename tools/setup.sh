#!/bin/bash
# Nothing to install: every check builds what it needs from /repo with the installed compilers.
cd "$(dirname "$0")/.." && mkdir -p evidence build replays && command -v clang++ >/dev/null && python3 -c 'import checks' 
