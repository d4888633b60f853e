#!/bin/bash
# usage: check.sh ID [quick|thorough] | check.sh replay FILE
# Builds the simulator and the simulated oct from the current working tree of
# /repo, then explores. Exit 0: the property held; 1: VIOLATION; 3: machinery.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export OCTSIM_ROOT="$root" CGO_ENABLED=0 GOFLAGS= GOTOOLCHAIN=local GO111MODULE=on
export HOME="${HOME:-/root}"
tmp="$(mktemp -d /tmp/octsim.XXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
(cd "$root/sim" && go build -buildvcs=false -o "$tmp/octsim" .) || { echo "MACHINERY: the simulator does not build"; exit 3; }
cd "$root" || exit 3
if [ "${1:-}" = replay ]; then
	"$tmp/octsim" replay "$2"
else
	"$tmp/octsim" check "$1" "${2:-quick}"
fi
exit $?
