#!/bin/bash
# Checks that the monitors build from /repo's current working tree.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/tools/env.sh"
cd "$V/harness"
go version
OUT=$(mktemp -d)
trap 'rm -rf "$OUT"' EXIT
go build -o "$OUT/monitor" .
