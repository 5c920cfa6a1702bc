#!/bin/bash
# The simulator is interpreted and imports /repo's working tree at run time:
# nothing to build.  Check that it loads.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 python3 -c "import ast,glob
for f in glob.glob('dst/**/*.py', recursive=True): ast.parse(open(f).read())"
echo ok
