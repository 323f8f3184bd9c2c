#!/bin/bash
# check.sh Cxx: verifies what property Cxx needs, from /repo's current source
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
base=$(cd "$(dirname "$0")" && pwd)
bin=$(mktemp -d /tmp/sortyvc.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$base/sortyvc" && go build -o "$bin/sortyvc" .) || exit 2
"$bin/sortyvc" check "$1" -repo /repo -base "$base" "${@:2}"
