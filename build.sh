#!/bin/bash
# builds the analyzer into bin/sa (offline, vendored dependencies) unless it is up to date
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/bin/sa"
if [ -x "$bin" ] && [ -z "$(find "$here/sa" -newer "$bin" -type f -print -quit)" ]; then exit 0; fi
mkdir -p "$here/bin"
go=/opt/veriftools/go1.27.3/bin/go
[ -x "$go" ] || go=$(command -v go)
cd "$here/sa" && GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor GOSUMDB=off "$go" build -o "$bin.tmp.$$" . && mv "$bin.tmp.$$" "$bin"
