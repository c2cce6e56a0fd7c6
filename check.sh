#!/bin/bash
# check.sh Cxx quick|thorough: builds the monitors with the code in /repo's working tree and runs one check.
# Exit 0: held; 1: VIOLATION line; 2: no verdict.
set -u
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
SEED=${VERIF_SEED:-1}
WORK=$(mktemp -d /tmp/vmon-build.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT

RACE=
[ "$ID" = C16 ] && RACE=-race
cd "$HERE/harness" || exit 2
go build $RACE -o "$WORK/vmon" . || { echo "the monitors do not build" >&2; exit 2; }
case $ID in
C26|C27|C29|C30)
  (cd /repo && go build -o "$WORK/generate" ./cmd/generate) || { echo "cmd/generate does not build" >&2; exit 2; }
  export VMON_GENERATE=$WORK/generate
  ;;
esac

export VMON_KNOWN=$HERE/KNOWN_FINDINGS.txt
"$WORK/vmon" -prop "$ID" -tier "$TIER" -seed "$SEED" -out "$HERE/replay" -evidence "$HERE/evidence/$ID.json"
