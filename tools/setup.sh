#!/bin/bash
# Nothing is kept built: every check builds the driver from /repo.  This makes sure it can, and warms the build cache.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/.work" "$here/evidence"
tmp=$(mktemp -d -p "$here/.work" setup-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
bash "$here/tools/build.sh" "$tmp/vdrive"
bash "$here/tools/build.sh" "$tmp/vdrive.race" -race
java -version 2>&1 | head -1
python3 -c 'import json; json.load(open("'"$here"'/MANIFEST.json"))'
