#!/bin/bash
# Nothing to build: the code under test and the harness are Python, imported from /repo at check time.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 "$py" -W ignore -c "import sys; sys.path.insert(0, '/repo'); import ocelot, harness.core; print('ok', ocelot.__file__)"
