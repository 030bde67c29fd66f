#!/bin/sh
# Pre-build the extensions from /repo's sources (each check rebuilds what changed).
cd "$(dirname "$0")" || exit 1
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vlib import build
print(build.build_ext('psparse'), build.build_ext('continued_fraction'), build.build_backend())
"
