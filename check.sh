#!/bin/bash
# check.sh PROPERTY: builds the harness and the program from /repo's working tree and runs one check.
# check.sh --setup: builds once, to warm the build cache.
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
VERIF_REPO=${VERIF_REPO:-/repo}
VERIF_SCRATCH=$(mktemp -d /tmp/w2bverif.XXXXXX) || exit 3
trap 'rm -rf "$VERIF_SCRATCH"' EXIT
trap 'exit 3' INT TERM
export VERIF_DIR VERIF_REPO VERIF_SCRATCH
build() {
	sed "s#=> /repo/src#=> $VERIF_REPO/src#" "$VERIF_DIR/harness/go.mod" > "$VERIF_SCRATCH/go.mod" &&
	cp "$VERIF_REPO/src/go.sum" "$VERIF_SCRATCH/go.sum" &&
	(cd "$VERIF_DIR/harness" && go build -buildvcs=false -modfile="$VERIF_SCRATCH/go.mod" -o "$VERIF_SCRATCH/vh" .) &&
	if [ "$1" = H01 ] || [ "$1" = --setup ]; then
		# the same with a simulated clock
		(cd "$VERIF_DIR/harness" && CGO_ENABLED=0 go build -tags faketime -buildvcs=false -modfile="$VERIF_SCRATCH/go.mod" -o "$VERIF_SCRATCH/vhvirtual" .)
	fi &&
	(cd "$VERIF_REPO/src" && go build -buildvcs=false -modfile="$VERIF_SCRATCH/repo.mod" -o "$VERIF_SCRATCH/wiki2book" .)
}
cp "$VERIF_REPO/src/go.mod" "$VERIF_SCRATCH/repo.mod" && cp "$VERIF_REPO/src/go.sum" "$VERIF_SCRATCH/repo.sum" || exit 3
build "$1" || { echo "ERROR: build failed" >&2; exit 3; }
if [ "$1" = --setup ]; then
	echo "setup ok"
	exit 0
fi
# If the environment is ended in the middle of a check, no verdict is given.
"$VERIF_SCRATCH/vh" check "$@"
exit $?
