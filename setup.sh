#!/bin/bash
# nothing to build: the code under test is pure Python and is imported from /repo's working tree
cd "$(dirname "$0")" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 exec "$py" -c "
from vp import target
target.setup(); target.import_all(); print('setup ok')"
