#!/bin/bash
# Nothing is built ahead of time: checks compile /repo's sources on the fly. This only links the test runner.
set -e
cd "$(dirname "$0")/.."
[ -e harness/node_modules ] || ln -sfn /repo/packages/vlossom/node_modules harness/node_modules
mkdir -p .work evidence replays
test -f /opt/veriftools/tla/tla2tools.jar
node -e "require('fs').accessSync('harness/node_modules/vitest/vitest.mjs')"
