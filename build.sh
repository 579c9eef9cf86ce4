#!/bin/bash
# Builds the analyser unless it is up to date.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS=-mod=mod
bin="$here/bin/disko-verify"
sum="$(cat "$here"/analyzer/*.go "$here"/analyzer/go.mod | sha256sum)"
if [ -x "$bin" ] && [ "$(cat "$bin.sum" 2>/dev/null)" = "$sum" ]; then
	exit 0
fi
mkdir -p "$here/bin"
cd "$here/analyzer" || exit 1
tmp="$bin.$$"
go build -o "$tmp" . && mv "$tmp" "$bin" && echo "$sum" > "$bin.sum"
