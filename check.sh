#!/bin/bash
# check.sh <property> [seconds] | check.sh replay <file> | check.sh trace <file> | check.sh selftest
# Instruments /repo's current working tree, builds the simulator around it in a
# scratch directory and searches (or replays). Exit 0 held, 1 violation, other:
# the check itself could not run.
set -u
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${REPO:-/repo}
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS= GO111MODULE=on
unset GOWORK
W=$(mktemp -d "${TMPDIR:-/tmp}/geminio-sim.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
trap 'exit 3' INT TERM
fail() { echo "check could not be built: $1" >&2; tail -40 "$W/log" >&2; exit 3; }
(cd "$VERIF/instr" && go build -o "$W/instr" .) >"$W/log" 2>&1 || fail "instrumenter"
"$W/instr" -repo "$REPO" -simrt "$VERIF/simrt" -harness "$VERIF/harness" -out "$W/b" >"$W/log" 2>&1 || fail "instrumentation of $REPO"
(cd "$W/b/harness" && GOFLAGS=-mod=mod go build -o "$W/H" .) >"$W/log" 2>&1 || fail "instrumented tree"
case "$1" in
build) "$W/H" list >/dev/null ;;
replay) "$W/H" replay -file "$2" ;;
trace) "$W/H" replay -file "$2" -trace ;;
selftest) for p in $("$W/H" list); do "$W/H" check -prop "$p" -secs 1 -verif "$W/v" || exit 3; done ;;
*)
  TIER=${VERIF_TIER:-quick}
  SECS=${2:-}
  [ -n "$SECS" ] || { [ "$TIER" = thorough ] && SECS=720 || SECS=55; }
  "$W/H" check -prop "$1" -seed "${VERIF_SEED:-1}" -tier "$TIER" -secs "$SECS" -verif "${VERIF_OUT:-$VERIF}" ;;
esac
rc=$?
exit $rc
