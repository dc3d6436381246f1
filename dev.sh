#!/bin/bash
# developer helper: build and run one property
cd "$(dirname "$0")" && . ./env.sh && (cd harness && cargo build --offline 2>&1 | grep -E "^error" -A6 | head -60)
KV_VERBOSE=1 ./harness/target/debug/kv check "$@" 2>&1 | grep -v '^  "' | cut -c1-3000
