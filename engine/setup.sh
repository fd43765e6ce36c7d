#!/bin/bash
# checks build everything they need from /repo's current tree; nothing from /repo is built here
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replay
python3-vt -c "import z3, numpy; print('z3', z3.get_version_string())"
clang++ --version | head -1
