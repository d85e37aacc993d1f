#!/bin/bash
# Nothing to install: every check builds /repo and the specifications itself.
# This only verifies that the tools are there and that the sources compile.
set -e
cd "$(dirname "$0")/.."
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
javac -d "$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar spec/java/RealVec.java
for t in cmake ninja gcc java python3; do command -v $t >/dev/null; done
echo setup ok
