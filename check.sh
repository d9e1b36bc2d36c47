#!/bin/bash
# check.sh Cxx: builds the harness against /repo's current working tree and runs one check.
# VERIF_TIER (quick, thorough) and VERIF_SEED choose depth and randomness.
# check.sh --replay FILE runs the case of a replay file again.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
ROOT=$(cd "$(dirname "$0")" && pwd)
WORK=$(mktemp -d "${TMPDIR:-/tmp}/pdftcheck.XXXXXX") || exit 2
trap 'rm -rf -- "$WORK"' EXIT
export TMPDIR=$WORK
RACE=
P=$1
if [ "$1" = --replay ]; then
    P=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
fi
if [ "$P" = C14 ]; then
    RACE=-race
    export PV_NOLIMIT=1 # the race detector maps its shadow memory
fi
cd "$ROOT/harness" || exit 2
if ! go build $RACE -o "$WORK/pv" . ; then
    echo "check $1: the harness does not build against /repo" >&2
    exit 2
fi
if [ "$1" = --replay ]; then
    "$WORK/pv" -replay "$2"
    exit $?
fi
"$WORK/pv" -prop "$P" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -root "$ROOT"
exit $?
