#!/bin/bash
# Nothing to build (pure Python): verify that the code under test can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -B -X pycache_prefix=/nonexistent/pycache -c "
import sys; sys.path.insert(0, '.')
from vt import core; core.setup_path()
import quickly, parce, os
assert os.path.realpath(quickly.__file__).startswith(os.path.realpath(core.REPO)), quickly.__file__
print('quickly from', quickly.__file__, 'parce', parce.__file__)
"
