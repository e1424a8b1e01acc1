#!/bin/sh
# nothing to build: the analyser is Python over the installed libLLVM; check that the tools are there
set -e
cd "$(dirname "$0")"
for t in clang++-18 opt-18 g++-14 python3; do command -v $t >/dev/null; done
python3 -c "import sys; sys.path.insert(0,'sa'); import llvmir, dom, engine, models, build"
echo ready
