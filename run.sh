#!/bin/bash
# usage: run.sh <property id|all> [quick|thorough]
# Builds the analyzer if needed and runs it against the working tree of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
bin=$here/bin/analyzer
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" -name '*.go' | head -1)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/analyzer" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the analyzer" >&2; exit 2; }
fi
export GOMEMLIMIT=20GiB
exec "$bin" "$repo" "$here" "$1" "${2:-${VERIF_TIER:-quick}}"
