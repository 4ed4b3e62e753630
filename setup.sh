#!/bin/bash
# Builds all harnesses from the committed files and /repo's current tree.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
touch_changed
for w in plain shadow; do
    cd "$MC_VERIF/harness/$w"
    cargo build --offline --locked -q >"$CARGO_TARGET_DIR/setup.log" 2>&1 || { grep -E '^error' -A12 "$CARGO_TARGET_DIR/setup.log" | head -60; exit 3; }
done
