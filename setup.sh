#!/bin/sh
# Nothing to build ahead of time: every check compiles what it verifies from
# /repo's current tree. This only confirms that the tools are there.
set -e
for t in goto-cc goto-instrument cbmc gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
cbmc --version
