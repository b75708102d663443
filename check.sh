#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the analyzer if it is not built yet and analyses /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
bin="$here/bin/vfa"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" -type f -print -quit)" ]; then
  mkdir -p "$here/bin"
  tmp="$here/bin/vfa.$$"
  if ! (cd "$here/analyzer" && go build -o "$tmp" .) ; then
    echo "cannot build the analyzer"; exit 2
  fi
  mv -f "$tmp" "$bin"
fi
exec "$bin" -repo "${VFA_REPO:-/repo}" -verif "$here" -prop "$1" -tier "${2:-quick}"
