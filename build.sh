#!/bin/bash
# builds the analyzer offline from the committed sources
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin"
cd "$here/analyzer"
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
export PATH="/opt/veriftools/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
[ -n "$HOME" ] || export HOME=/root
go build -o "$here/bin/analyzer.tmp" .
mv "$here/bin/analyzer.tmp" "$here/bin/analyzer"
