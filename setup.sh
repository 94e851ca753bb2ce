#!/bin/bash
# Nothing is compiled ahead of time: checks build what they need from /repo's working tree.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import aiohttp, sqlalchemy, traitlets, cryptography"
mkdir -p evidence
echo setup ok
