#!/bin/bash
# check.sh <property> [--replay <file>] : builds the harness against /repo's working tree and decides the property.
# Exit 0: held on everything explored; 1: VIOLATION line; anything else: the check itself failed.
set -u
id=${1:?property id}; shift
dir=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$dir GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export HOME=${HOME:-/root}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vh-build-XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
if ! (cd "$dir/harness" && go test -c -vet=off -mod=readonly -o "$tmp/h.test" .) >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "ERROR property=$id: build failed" >&2
	exit 3
fi
export VH_PROP=$id VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
if [ "${1:-}" = "--replay" ]; then
	export VH_MODE=replay VH_REPLAY=$(realpath "$2")
else
	export VH_MODE=driver
fi
"$tmp/h.test"
exit $?
