#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's working
# tree. This only verifies that the tools are there.
set -e
for t in clang clang++ gcc make python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/../evidence"
echo ok
