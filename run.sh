#!/bin/bash
# usage: run.sh <property> [extra arguments for the explorer]
# Rebuilds the explorer against the working tree of /repo and runs one check.
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
ID=$1; shift
. "$ROOT/env.sh"
export VERIF_ROOT=$ROOT VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$ROOT/evidence}
mkdir -p "$ROOT/build" "$VERIF_EVIDENCE" || exit 2
BIN=$ROOT/build/mc.$$
GEN=$ROOT/build/gen.$$
trap 'rm -f "$BIN"; rm -rf "$GEN"' EXIT
OVERLAY=
case $ID in
C22|C23|C25|C26)
	# these checks compile packages generated from the working tree
	( cd "$ROOT/mc" && go run -mod=readonly ${VERIF_MODFILE:+-modfile=$VERIF_MODFILE} ./gen "$ID" "$VERIF_REPO" "$ROOT/mc" "$GEN" ) || { echo "generation failed" >&2; exit 2; }
	OVERLAY=$GEN/overlay.json ;;
esac
( cd "$ROOT/mc" && go build ${OVERLAY:+-overlay=$OVERLAY} -mod=readonly ${VERIF_MODFILE:+-modfile=$VERIF_MODFILE} -o "$BIN" . ) || { echo "build failed" >&2; exit 2; }
"$BIN" -prop "$ID" "$@"
exit $?
