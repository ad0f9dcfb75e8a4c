#!/bin/bash
# Nothing persists between runs: every check builds the TLC override class in
# its own scratch directory.  This only verifies that the toolchain is there.
set -e
cd "$(dirname "$0")"
command -v java javac python3 >/dev/null
test -x /opt/venv/bin/python
D=$(mktemp -d)
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$D" java/*.java
rm -rf "$D"
echo setup ok
