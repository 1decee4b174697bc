#!/bin/bash
# run.sh ID TIER: build the explorer against /repo's current tree and run one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
id="$1"; tier="${2:-quick}"
out=$(mktemp -d) || exit 2
trap 'rm -rf -- "$out"' EXIT
race=; [ "$id" = A03 ] && race=-race # concurrent analyses are explored up to data races
export GORACE="halt_on_error=1 exitcode=66"
if ! (cd mc && go build $race -o "$out/mc" . && cd /repo && go build -o "$out/" ./cmd/tealsarif ./cmd/tealsp ./cmd/tealdbg) >"$out/build.log" 2>&1; then
  cat "$out/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
export MC_TEALSARIF="$out/tealsarif" MC_TEALSP="$out/tealsp" MC_TEALDBG="$out/tealdbg"
mkdir "$out/s" && export MC_SCRATCH="$out/s"
"$out/mc" check "$id" "$tier"
rc=$?
exit $rc
