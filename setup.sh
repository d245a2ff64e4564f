#!/bin/bash
# Confirms that the tools the checks need are present and warms the build cache.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
command -v z3
test -x /opt/veriftools/go1.24.13/bin/go
cd "$here/gosym"
GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o /dev/null .
