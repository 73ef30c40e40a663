#!/bin/bash
# exit 0: the property holds; run with the repository as working directory
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
node "$HERE/build.mjs" "$PWD/src" "$W/page.mjs"
timeout 60 node "$HERE/demo.mjs" "$W/page.mjs"
