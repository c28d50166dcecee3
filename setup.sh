#!/bin/sh
# nothing to build: the analyses are Python on the pre-installed clang; verify that the tools are there
set -e
cd "$(dirname "$0")"
python3-vt -c "import networkx, sympy; import sys; sys.path.insert(0,'.'); from sa import core"
clang --version >/dev/null
gcc --version >/dev/null
mkdir -p evidence
