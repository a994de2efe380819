#!/bin/bash
# Builds the analyzer from the committed files; no network.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p "$here/bin"
cd "$here/analyzer" && go build -o "$here/bin/analyzer" .
