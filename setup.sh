#!/bin/bash
# Nothing to build: the checks run the specifications with the installed TLC and sympkf from /repo/src.
set -e
test -f /opt/veriftools/tla/tla2tools.jar
test -x /opt/venv/bin/python
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m json.tool MANIFEST.json > /dev/null
for f in spec/*.tla; do test -s "$f"; done
mkdir -p evidence
echo setup ok
