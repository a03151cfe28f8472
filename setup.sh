#!/bin/bash
# nothing to build ahead: every check generates its obligations and builds its search driver from /repo's sources
set -e
cd "$(dirname "$0")"
for t in clang++ g++ z3 z3-new cvc5 python3; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
mkdir -p evidence replays
python3 -m py_compile run.py engine/*.py
