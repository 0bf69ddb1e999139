#!/bin/bash
# Nothing to build: the checks compile what they need. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
clang++ --version | head -1
g++ --version | head -1
python3-vt -m compileall -q engine
mkdir -p evidence/replay
