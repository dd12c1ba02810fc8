#!/bin/bash
# check.sh <property> : build the harness against /repo's working tree and search for violations.
# Exit 0: held on everything explored. 1: VIOLATION line printed. Anything else: the check itself failed.
set -u
cd "$(dirname "$0")"
VERIF=$PWD
PROP=$1
TIER=${VERIF_TIER:-quick}
[ "${2:-}" = thorough ] && TIER=thorough
SEED=${VERIF_SEED:-1}
BIN=$("$VERIF/build.sh") || { echo "HARNESS-ERROR property=$PROP: the harness does not build against /repo" >&2; exit 2; }
mkdir -p "$VERIF/evidence" "$VERIF/replays"
exec "$BIN" check --prop "$PROP" --tier "$TIER" --seed "$SEED" --jobs "${VERIF_JOBS:-0}" ${VERIF_RUNS:+--runs "$VERIF_RUNS"} \
  --out "$VERIF/evidence/$PROP.json" --replay-dir "$VERIF/replays" --known "$VERIF/known-findings.txt"
