#!/bin/bash
# usage: run.sh <ID> <feature> [quick|thorough] -- rebuild from /repo's working tree, then explore
cd "$(dirname "$0")" || exit 2
id=$1; feat=$2; export VERIF_TIER=${3:-${VERIF_TIER:-quick}}
export MC_VERIF=$PWD
. ./env.sh
log=$(mktemp)
if ! build_harness "$feat" >"$log" 2>&1; then
  tail -n 60 "$log"; rm -f "$log"; echo "run.sh: the harness did not build" >&2; exit 2
fi
rm -f "$log"
exec "$MC_BIN/mc-$feat" check "$id"
