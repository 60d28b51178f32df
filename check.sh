#!/bin/bash
# Usage: check.sh PROPERTY [pcheck flags]   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's current tree and decides one property.
cd "$(dirname "$0")" || exit 3
ROOT=$PWD
. ./env.sh
ID=$1; shift
BIN=$(mktemp -d) || exit 3
trap 'rm -rf "$BIN"' EXIT
export TMPDIR=$BIN
export GOFLAGS=-mod=readonly
if ! (cd harness && go build -o "$BIN/pcheck" ./cmd/pcheck); then
  echo "ERROR: the harness does not build against /repo" ; exit 3
fi
case $ID in C24)
  export PCHECK_RACE=$BIN/pcheck-race
  if ! (cd harness && go build -race -o "$PCHECK_RACE" ./cmd/pcheck); then
    echo "ERROR: the harness does not build with the race detector" ; exit 3
  fi;;
esac
"$BIN/pcheck" -root "$ROOT" -property "$ID" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 3;; esac
