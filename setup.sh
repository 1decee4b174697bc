#!/bin/bash
# Warms the Go build cache; everything is rebuilt by run.sh anyway.
set -u
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
out=$(mktemp -d) || exit 1
trap 'rm -rf -- "$out"' EXIT
(cd mc && go build -o "$out/mc" .) && (cd /repo && go build -o "$out/" ./cmd/tealsarif ./cmd/tealsp ./cmd/tealdbg)
