#!/bin/bash
# check.sh <property>: rebuild the harness against /repo's working tree, run one property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -n "$2" ] && export VERIF_TIER="$2"
log=$(mktemp)
if ! (cd harness && cargo build --offline) >"$log" 2>&1; then
  echo "ERROR: the harness does not build against /repo"; grep -E "^error" -A6 "$log" | head -40; rm -f "$log"; exit 2
fi
rm -f "$log"
exec ./harness/target/debug/kv check "$1"
