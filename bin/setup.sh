#!/bin/bash
# Nothing has to be built ahead: every check extracts and builds what it needs from /repo's current tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p target evidence
verus --version >/dev/null
python3 -c 'import sys; sys.path.insert(0, "vx"); import vx'
