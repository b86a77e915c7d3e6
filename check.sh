#!/bin/bash
# Usage: check.sh <property>. VERIF_SEED and VERIF_TIER are honoured.
# Builds the monitor against /repo's current working tree and runs one property.
set -u
ID=$1
V=$(cd "$(dirname "$0")" && pwd)
. "$V/tools/env.sh"
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
OUT=$(mktemp -d "${TMPDIR:-/tmp}/vbuild-$ID-XXXXXX") || exit 4
trap 'rm -rf "$OUT"' EXIT
RACE=
case "$ID" in C14|C26) RACE=-race ;; esac
cd "$V/harness" || exit 4
if ! go build $RACE -o "$OUT/monitor" . >"$OUT/build.log" 2>&1; then
  echo "BUILD FAILED property=$ID"
  cat "$OUT/build.log"
  exit 4
fi
case "$ID" in C17|C26|C27)
  if ! go build $RACE -o "$OUT/vdbserver" github.com/continusec/verifiabledatastructures/cmd/vdbserver >"$OUT/build.log" 2>&1; then
    echo "BUILD FAILED property=$ID"; cat "$OUT/build.log"; exit 4
  fi
  export VDBSERVER="$OUT/vdbserver" ;;
esac
if [ "$ID" = C15 ]; then
  if ! go build -o "$OUT/vdbload" github.com/continusec/verifiabledatastructures/cmd/vdbload >"$OUT/build.log" 2>&1; then
    echo "BUILD FAILED property=$ID"; cat "$OUT/build.log"; exit 4
  fi
  export VDBLOAD="$OUT/vdbload"
fi
"$OUT/monitor" -prop "$ID" -seed "$SEED" -tier "$TIER" -verif "$V"
RC=$?
exit $RC
