#!/bin/bash
# Builds the analyzer (offline, from the module cache).
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$here/bin" && cd "$here/analyzer" && go build -o "$here/bin/vfa" .
