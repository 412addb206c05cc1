#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo. Only the tools are verified here.
set -e
cd "$(dirname "$0")/.."
for t in g++ clang++ python3 python3-vt cmake nm; do command -v $t >/dev/null || { echo "missing tool $t"; exit 1; }; done
test -d /usr/include/rapidcheck || test -d /usr/local/include/rapidcheck || { echo "missing rapidcheck"; exit 1; }
mkdir -p evidence/replays build
echo setup ok
