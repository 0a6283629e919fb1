#!/bin/bash
# Nothing to install: every check builds what it needs. This only verifies that the explorer builds.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
tmp=$(mktemp -d) || exit 1
cp -r mc "$tmp/mc" && (cd "$tmp/mc" && go build -tags all -o "$tmp/bin" .)
rc=$?
rm -rf -- "$tmp"
exit $rc
