#!/bin/bash
# Nothing to install: the checks compile their harnesses themselves. Verify that the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v g++ java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p .build .out evidence
echo setup ok
