#!/bin/bash
# run.sh ID [TIER]: builds the harness from /repo's working tree and runs the check of property ID.
# run.sh --setup: builds only.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=${CGO_ENABLED:-1}
export GODEBUG=panicnil=0
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
id="${1:?usage: run.sh ID [TIER]}"
tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p "$VERIF_DIR/.build" "$VERIF_DIR/evidence"
bin="$VERIF_DIR/.build/vh"
flags=()
case "$id" in
C20) bin="$bin-race"; flags=(-race); export GORACE="halt_on_error=1 exitcode=66" ;;
esac
cd "$VERIF_DIR/harness" || exit 2
if ! go build "${flags[@]}" -o "$bin" . ; then
	echo "run.sh: the harness does not build against /repo" >&2
	exit 2
fi
case "$id" in
C28 | C29 | --setup)
	if ! go build -o "$VERIF_DIR/.build/wbnf" github.com/arr-ai/wbnf; then
		echo "run.sh: the wbnf command does not build" >&2
		exit 2
	fi
	;;
esac
[ "$id" = --setup ] && exit 0
# What a check leaves behind, however it ends, is removed.
TMPDIR="$(mktemp -d)" || exit 2
export TMPDIR
trap 'rm -rf "$TMPDIR"' EXIT
"$bin" check "$id" "$tier"
