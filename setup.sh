#!/bin/bash
# Nothing is built: the checks run /repo's working tree in place.  Verify the interpreter is there.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence/replay"
cd "${VERIF_REPO:-/repo}" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import svgpy, svgpy.geometry, svgpy.css'
