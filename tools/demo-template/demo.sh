#!/bin/bash
# Runs demo.test.ts against the sources in the current directory (a checkout of the repository).
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.test.ts" "$here/vitest.config.mjs" "$tmp/" || exit 2
ln -s "$repo/packages/vlossom/node_modules" "$tmp/node_modules"
cd "$tmp" && REPO="$repo" CI=1 timeout 240 node node_modules/vitest/vitest.mjs run --config vitest.config.mjs
