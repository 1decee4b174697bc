#!/bin/bash
# Regenerates BOUNDS.md: every space of every property with its size per tier.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly PATH=/opt/veriftools/go1.27.3/bin:$PATH
out=$(mktemp -d) || exit 2
trap 'rm -rf -- "$out"' EXIT
export MC_SCRATCH="$out" MC_TEALSARIF=x MC_TEALSP=x MC_TEALDBG=x VERIF_ROOT="$PWD"
(cd mc && go build -o "$out/mc" .) || exit 2
{ echo "# Bounds of every check"; echo; echo "| property | space | what is enumerated | quick cases | thorough cases |"; echo "|---|---|---|---|---|"
for i in $(cat claimed.txt); do "$out/mc" spaces "$i"; done; } > BOUNDS.md
