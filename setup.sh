#!/bin/bash
# Builds the syntax-tree front end used by every check.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
PYTHONPATH="$here/analyzer" PYTHONDONTWRITEBYTECODE=1 python3 -c 'from vp import prog; prog.build_frontend()'
