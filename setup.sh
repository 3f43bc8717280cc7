#!/bin/sh
# builds the AST extractor and warms the caches for /repo's current tree
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "analysis")
import program
program.build_tool()
for c in ("ref", "blas", "opencl", "omp", "cl", "spec"):
    print(c, len(program.dump(c)))
P
