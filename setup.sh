#!/bin/sh
# Nothing to install: each check builds the harness from /repo's current tree and runs TLC
# on spec/. This only makes sure that the tools are there.
set -e
cd "$(dirname "$0")"
command -v tlc >/dev/null
command -v python3 >/dev/null
test -x /opt/veriftools/go1.23.12/bin/go
mkdir -p evidence
echo ready
