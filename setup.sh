#!/bin/bash
# Builds the checker (offline, vendored dependencies).
set -e
V=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27*/bin /usr/local/go/bin /opt/veriftools/go/bin; do [ -x "$d/go" ] && export PATH="$d:$PATH" && break; done
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor
mkdir -p "$V/bin"
cd "$V/checker"
go build -o "$V/bin/checker.new.$$" . && mv "$V/bin/checker.new.$$" "$V/bin/checker"
