#!/bin/bash
# Nothing to compile: check that the interpreter and the code import.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python - <<'PY'
from dst import env
import dst.run, dst.vfs, torch
print('setup ok: torch', torch.__version__, 'repo', env.SRC)
PY
