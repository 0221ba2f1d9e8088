#!/bin/bash
# Usage: check.sh PROPERTY...   decides the properties for the current source in /repo (or $VERIF_REPO).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
bin="$here/bin/verifan"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p "$here/bin"
  if ! (cd "$here/analyzer" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin"); then
    echo "cannot build the analyzer"
    exit 2
  fi
fi
[ "$1" = "--setup" ] && exit 0
exec "$bin" -repo "${VERIF_REPO:-/repo}" -verif "$here" "$@"
