#!/bin/bash
# nothing to build ahead of time: the checks compile /repo's current tree themselves. Verify that the tools are there.
set -e
for t in clang++-18 clang++ opt-18 llvm-link-18; do command -v $t >/dev/null || true; done
python3-vt -c 'import z3'
command -v cvc5 >/dev/null
