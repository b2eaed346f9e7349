#!/bin/bash
# run.sh <property> <quick|thorough>: builds the checker when needed and runs one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
bin="$here/checker/bin/njcheck"
cd "$here/checker" || exit 2
if [ ! -x "$bin" ] || [ -n "$(find . -name '*.go' -newer "$bin" -print -quit)" ]; then
	mkdir -p bin && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin" || exit 2
fi
[ "${1:-}" = build ] && exit 0
cd "$here" || exit 2
exec "$bin" -repo /repo -verif "$here" -prop "$1" -tier "${2:-quick}"
