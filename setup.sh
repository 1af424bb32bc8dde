#!/bin/bash
# Builds the framework from the committed files, to show that it builds.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
goroot=/opt/veriftools/go1.26.10
tmp=$(mktemp -d /tmp/hcsetup-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off GOPROXY=off
(cd "$here/sim/orch" && "$goroot/bin/go" build -o "$tmp/orch" .)
(cd "$here/sim/gen" && "$goroot/bin/go" build -o "$tmp/gen" .)
"$tmp/gen" -goroot "$goroot" -repo "${HC_REPO:-/repo}" -sim "$here/sim" -out "$tmp/o" -level 2
echo "setup ok"
