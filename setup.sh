#!/bin/bash
# Nothing to compile: the checks run the code of /repo's working tree directly.  Fails early if the tools are missing.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/vf PATH=/opt/venv/bin:$PATH
mkdir -p evidence/replays
/opt/venv/bin/python - <<'P'
import connectrpc, pathlib, vf.engine
assert str(pathlib.Path(connectrpc.__file__)).startswith("/repo/src/"), connectrpc.__file__
print("ok", connectrpc.__file__)
P
