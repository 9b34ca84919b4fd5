#!/bin/bash
# Nothing to install: checks the tools the monitors need, and warms the build of /repo.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python - <<'P'
import sys, shutil
sys.path.insert(0, ".")
from pdsmon import build
d = build.build("plain", print)
shutil.rmtree(d, ignore_errors=True)
import numpy, scipy, sklearn, polars
print("setup ok", polars.__version__, numpy.__version__, scipy.__version__, sklearn.__version__)
P
