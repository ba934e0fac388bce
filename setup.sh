#!/bin/sh
# builds the file seam (and the extensions of the tree, if they are not current)
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "
import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'.')
from sim import build, core
print(build.fsim()); print(build.ext(core.REPO))"
