#!/bin/bash
# check.sh <property>: builds the analyzer when it is out of date and decides one property on /repo's current source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB='*' GOTOOLCHAIN=local
bin="$here/.build/jinverify"
mkdir -p "$here/.build" "$here/evidence"
(
  flock 9
  if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" -type f -print -quit)" ]; then
    (cd "$here/analyzer" && go build -o "$bin" .) || exit 2
  fi
) 9>"$here/.build/lock" || { echo "the analyzer does not build"; exit 2; }
exec "$bin" -repo "${VERIF_REPO:-/repo}" -verif "$here" -check "$1"
