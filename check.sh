#!/bin/bash
# check.sh ID... : decide properties of /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
PYTHONPATH="$here/analyzer" PYTHONDONTWRITEBYTECODE=1 exec python3 -m vp.run "$@"
