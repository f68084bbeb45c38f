#!/bin/bash
# Nothing is shared between checks (each builds what it needs); this only
# verifies that the toolchain the checks rely on is present.
cd "$(dirname "$0")" || exit 1
for t in clang++ addr2line; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence
echo ok
