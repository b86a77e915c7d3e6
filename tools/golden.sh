#!/bin/bash
# Records what C33 compares with, from the code of the original commit: harness/golden/d64d1ff.json.gz.
# Not part of any check.
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/tools/env.sh"
W=$(mktemp -d /tmp/golden-XXXXXX)
mkdir "$W/base"
git -C /repo archive d64d1ff | tar x -C "$W/base"
cp -a "$V/harness" "$W/harness"
cp -a "$V/objecthash" "$W/objecthash"
cd "$W/harness"
go mod edit -replace github.com/continusec/verifiabledatastructures="$W/base"
go build -o "$W/monitor" .
"$W/monitor" -helper golden -harg "$V/harness" 2>/dev/null
rm -rf "$W"
