#!/bin/bash
# check.sh PROPERTY            decide one property (VERIF_SEED, VERIF_TIER)
# check.sh -replay FILE        repeat a recorded violation
# check.sh PROPERTY FLAGS...   see sim/orch/main.go
set -u
here=$(cd "$(dirname "$0")" && pwd)
goroot=/opt/veriftools/go1.26.10
bin=$(mktemp -d /tmp/hcorch-XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
(cd "$here/sim/orch" && GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off GOPROXY=off \
  GOCACHE="${GOCACHE:-/root/.cache/go-build}" "$goroot/bin/go" build -o "$bin/orch" .) || exit 3
args=()
case "${1:-}" in
-*) ;;
*) args=(-prop "$1"); shift ;;
esac
"$bin/orch" -verif "$here" -repo "${HC_REPO:-/repo}" -goroot "$goroot" "${args[@]}" "$@"
