#!/bin/bash
# replay.sh Cxx BUILD CASE: runs one input of a replay file on /repo's current source
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
base=$(cd "$(dirname "$0")" && pwd)
bin=$(mktemp -d /tmp/sortyvc.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$base/sortyvc" && go build -o "$bin/sortyvc" .) || exit 2
"$bin/sortyvc" replay "$1" "$2" "$3" -repo /repo -base "$base"
